"""Program model: modules, classes, functions, annotations of the analysed packages."""
import ast
import os

from .terms import ANY, BOOL, NUM, STR, NONE_T

REPO = os.environ.get('VERIF_REPO', '/repo')
SCRIPTS = os.path.join(REPO, 'Python', 'research', 'scripts')
RELNET = os.path.join(SCRIPTS, 'relnet')
DEMO = os.path.join(SCRIPTS, 'demo')


class AnalysisBroken(Exception):
    """an anchor of the analysis is missing: no verdict can be given"""


class Func:
    def __init__(self, node, module, cls=None):
        self.node = node
        self.module = module
        self.cls = cls
        self.name = node.name
        decs = [ast.unparse(d) for d in node.decorator_list]
        self.static = 'staticmethod' in decs
        self.classm = 'classmethod' in decs
        self.prop = any(d == 'property' or d.endswith('cached_property') for d in decs)
        self.abstract = any('abstractmethod' in d for d in decs)
        self.decs = decs

    @property
    def qual(self):
        return f'{self.cls.name}.{self.name}' if self.cls else self.name

    @property
    def where(self):
        return f'{os.path.relpath(self.module.path, REPO)}:{self.node.lineno}'

    def __repr__(self):
        return f'<Func {self.module.name}.{self.qual}>'


class Class:
    def __init__(self, node, module):
        self.node = node
        self.module = module
        self.name = node.name
        self.bases = [b.id if isinstance(b, ast.Name) else (b.attr if isinstance(b, ast.Attribute) else '?')
                      for b in node.bases]
        self.methods = {}
        self.consts = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = Func(s, module, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
                        # alias: b = a  for methods
                        if isinstance(s.value, ast.Name) and s.value.id in self.methods:
                            self.methods[t.id] = self.methods[s.value.id]
                        # f = staticmethod(f)
                        v = s.value
                        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and len(v.args) == 1 \
                                and v.func.id in ('staticmethod', 'classmethod') \
                                and isinstance(v.args[0], ast.Name) and v.args[0].id in self.methods:
                            m = self.methods[t.id] = self.methods[v.args[0].id]
                            m.static, m.classm = v.func.id == 'staticmethod', v.func.id == 'classmethod'
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value


class Module:
    def __init__(self, path, name):
        self.path = path
        self.name = name
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        try:
            self.tree = ast.parse(self.src)
        except SyntaxError as e:
            raise AnalysisBroken(f'{path} does not parse: {e}')
        self.funcs = {}
        self.classes = {}
        self.consts = {}
        self.imports = {}      # local name -> (module, original name or None)
        self._scan(self.tree.body)

    def _scan(self, body):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[s.name] = Func(s, self)
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = Class(s, self)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value
            elif isinstance(s, ast.If):
                self._scan(s.body)
                self._scan(s.orelse)
            elif isinstance(s, ast.Try):
                self._scan(s.body)
                for h in s.handlers:
                    self._scan(h.body)
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                self.add_import(s, self.imports)

    @staticmethod
    def add_import(s, table):
        if isinstance(s, ast.Import):
            for a in s.names:
                table[a.asname or a.name.split('.')[0]] = (a.name, None)
        else:
            m = (s.module or '').split('.')[-1] if (s.level or 'relnet' in (s.module or '')) else (s.module or '')
            for a in s.names:
                table[a.asname or a.name] = (m, a.name)


class Program:
    def __init__(self, dirs=(RELNET,), extra=()):
        self.modules = {}
        for d in dirs:
            if not os.path.isdir(d):
                raise AnalysisBroken(f'missing directory {d}')
            for fn in sorted(os.listdir(d)):
                if fn.endswith('.py'):
                    m = Module(os.path.join(d, fn), fn[:-3])
                    self.modules[m.name] = m
        for p in extra:
            m = Module(p, 'spec_' + os.path.basename(p)[:-3])
            self.modules[m.name] = m
        self.classes = {}
        for m in self.modules.values():
            for c in m.classes.values():
                self.classes.setdefault(c.name, c)

    def mro(self, name):
        out = []

        def go(n):
            c = self.classes.get(n)
            if c is None or c in out:
                return
            out.append(c)
            for b in c.bases:
                go(b)
        go(name)
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_super(self, cls, after, name):
        seen = False
        for c in self.mro(cls):
            if seen and name in c.methods:
                return c.methods[name]
            if c.name == after:
                seen = True
        return None

    def subclass_of(self, name, base):
        return any(c.name == base for c in self.mro(name))

    def func(self, module, qual):
        """module may be None: search all"""
        cands = []
        for m in self.modules.values():
            if module is not None and m.name != module:
                continue
            if '.' in qual:
                c, f = qual.split('.', 1)
                if c in m.classes:
                    fn = self.find_method(c, f)
                    if fn:
                        cands.append(fn)
            elif qual in m.funcs:
                cands.append(m.funcs[qual])
        return cands[0] if cands else None

    # ---- annotations -------------------------------------------------------------------
    def ty(self, a):
        if a is None:
            return ANY
        if isinstance(a, str):
            try:
                a = ast.parse(a, mode='eval').body
            except SyntaxError:
                return ANY
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                return self.ty(a.value)
            if a.value is None:
                return NONE_T
            return ANY
        if isinstance(a, ast.Name):
            n = a.id
            if n in ('int', 'float'):
                return NUM
            if n == 'bool':
                return BOOL
            if n == 'str':
                return STR
            if n in ('set', 'frozenset', 'Set', 'FrozenSet'):
                return ('set', ANY)
            if n in ('dict', 'Dict'):
                return ('dict', ANY, ANY)
            if n in ('list', 'List'):
                return ('list', ANY)
            if n in self.classes:
                return ('cls', n)
            return ANY
        if isinstance(a, ast.Attribute):
            return self.ty(ast.Name(id=a.attr))
        if isinstance(a, ast.Tuple):
            return ('tuple',) + tuple(self.ty(e) for e in a.elts)
        if isinstance(a, ast.Subscript):
            base = a.value.id if isinstance(a.value, ast.Name) else (
                a.value.attr if isinstance(a.value, ast.Attribute) else '')
            sl = a.slice
            elts = sl.elts if isinstance(sl, ast.Tuple) else [sl]
            if base in ('set', 'frozenset', 'Set', 'FrozenSet', 'AbstractSet', 'KeysView'):
                if isinstance(sl, ast.Tuple):      # frozenset[(A, B)]
                    return ('set', self.ty(sl))
                return ('set', self.ty(elts[0]))
            if base in ('dict', 'Dict', 'defaultdict', 'DefaultDict', 'Mapping', 'MutableMapping', 'OrderedDict'):
                if len(elts) == 2:
                    return ('dict', self.ty(elts[0]), self.ty(elts[1]))
                return ('dict', ANY, ANY)
            if base == 'Counter':
                return ('dict', self.ty(elts[0]), NUM)
            if base in ('list', 'List', 'Sequence', 'Iterable', 'Iterator', 'Collection', 'deque'):
                return ('list', self.ty(elts[0]))
            if base in ('tuple', 'Tuple'):
                if len(elts) == 2 and isinstance(elts[1], ast.Constant) and elts[1].value is Ellipsis:
                    return ('list', self.ty(elts[0]))
                return ('tuple',) + tuple(self.ty(e) for e in elts)
            if base == 'Optional':
                return self.ty(elts[0])
            if base == 'Union':
                ts = [self.ty(e) for e in elts]
                ts = [t for t in ts if t != NONE_T]
                return ts[0] if len(set(ts)) == 1 else ANY
            if base in ('Type', 'Final', 'ClassVar'):
                return self.ty(elts[0]) if base != 'Type' else ANY
            if base in ('Callable',):
                return ('fn', self.ty(elts[-1]))
            return ANY
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            ts = [self.ty(a.left), self.ty(a.right)]
            ts = [t for t in ts if t != NONE_T]
            return ts[0] if len(ts) == 1 else ANY
        return ANY
