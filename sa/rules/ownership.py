"""Rules over the ownership analysis: finished objects never change, nothing mutable is shared with callers,
refused requests leave builders as they were, derived objects keep their vocabulary."""
import ast

from ..model import AnalysisBroken
from ..own import Own, path_str, root, GROW
from .base import RuleResult, rule

FINISHED = ['ValueNode', 'RelationEdge', 'DirectedRelation', 'SampleGraph', 'SampleSet', 'SampleSpace',
            'RelationGraph', 'ConditionalGraph', 'VariableNode', 'VariableEdge', 'VariablesGraph', 'FoldedNode',
            'FoldedEdge', 'FoldedGraph', 'ActiveNode', 'ActiveEdge', 'ActivationGraph']
BUILDERS = ['SampleGraphBuilder', 'SampleSetBuilder', 'RelationGraphBuilder']
PROVIDER = 'SampleGraphComponentsProvider'
BULK = {'add_all', 'remove_all', 'add_outcomes', 'generate_all_possible_outcomes'}
UNOBSERVED = {'_name', 'name', '_id_counter'}


def prefixes(loc):
    out = []
    while True:
        out.append(loc)
        if loc[0] in ('f', 'e', 'k'):
            loc = loc[1]
        else:
            break
    return out[::-1]


def _cls(o, loc):
    s = o.shp(loc)
    return s[1] if s[0] == 'cls' else None


def is_provider(prog, c):
    return c is not None and prog.subclass_of(c, PROVIDER)


def is_finished(prog, c):
    return c is not None and any(x.name in FINISHED for x in prog.mro(c))


def through_provider(o, loc):
    return any(is_provider(o.prog, _cls(o, p)) for p in prefixes(loc))


def entries(prog, classes):
    """(class, method) pairs reachable by a user: everything a class has, inherited methods included"""
    for c in classes:
        if c not in prog.classes:
            raise AnalysisBroken(f'public class {c} is missing')
        seen = set()
        for k in prog.mro(c):
            for n, m in k.methods.items():
                if n not in seen and not m.abstract:
                    seen.add(n)
                    yield c, m


def all_classes(prog):
    return [c.name for m in prog.modules.values() if not m.name.startswith('spec_') for c in m.classes.values()]


class Runs:
    """every entry point analysed once per program"""
    cache = {}

    def __init__(self, prog):
        self.prog = prog
        self.own = {}
        for c, m in entries(prog, all_classes(prog)):
            o = Own(prog)
            o.run(m, c, construct=m.name == '__init__')
            self.own[(c, m.name)] = (o, m)
        for mod in prog.modules.values():
            for f in mod.funcs.values():
                o = Own(prog)
                o.run(f)
                self.own[(None, f.name)] = (o, f)

    @classmethod
    def of(cls, prog):
        if id(prog) not in cls.cache:
            cls.cache[id(prog)] = cls(prog)
        return cls.cache[id(prog)]


def where(m, node=None):
    w = m.where.rsplit(':', 1)[0]
    return f'{w}:{getattr(node, "lineno", m.node.lineno)}'


def through(ev):
    return [f'{f.where} {f.qual}' for f in ev.stack]


# ---- memoisation ------------------------------------------------------------------------------
def _names(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)}


def _mentions_attr(node, attr):
    return any(isinstance(n, ast.Attribute) and n.attr == attr or
               isinstance(n, ast.Constant) and n.value == attr for n in ast.walk(node))


def memo_problem(func, attr, node):
    """None when the write at `node` is a lookup-guarded memo keyed by everything it depends on; otherwise why not"""
    if not attr.startswith('_'):
        return 'a public field is written'
    fn = func.node
    tests = [n.test for n in ast.walk(fn) if isinstance(n, (ast.If, ast.IfExp)) and _mentions_attr(n.test, attr)]
    tries = [n for n in ast.walk(fn) if isinstance(n, ast.Try) and any(_mentions_attr(b, attr) for b in n.body)]
    gets = [n for n in ast.walk(fn) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call)
            and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'get'
            and _mentions_attr(n.value.func.value, attr)]
    if not tests and not tries and not gets:
        return 'the field is written outside construction'
    params = {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs} - {'self'}
    exprs = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == attr:
            exprs.append(n.slice)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('get', 'setdefault') \
                and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == attr and n.args:
            exprs.append(n.args[0])
    defs = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    defs.setdefault(t.id, []).append(n.value)
    key = None
    for x in exprs:
        k = _faithful(x, defs)
        key = k if key is None else key & k
    key = key or set()
    used = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    missing = (params & used) - key
    if missing:
        return f'the remembered answer ignores the argument(s) {", ".join(sorted(missing))}'
    return None


def _faithful(e, defs, depth=0):
    """names whose whole value is part of the key (wrappers that lose nothing; projections do not count)"""
    if depth > 6:
        return set()
    if isinstance(e, ast.Name):
        out = {e.id}
        if len(defs.get(e.id, ())) == 1:
            out |= _faithful(defs[e.id][0], defs, depth + 1)
        return out
    if isinstance(e, (ast.Tuple, ast.List)):
        return set().union(*[_faithful(x, defs, depth + 1) for x in e.elts]) if e.elts else set()
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name) and e.func.id in ('frozenset', 'tuple', 'sorted', 'repr', 'str') and e.args:
            return _faithful(e.args[0], defs, depth + 1)
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'copy') and not e.args:
            return _faithful(e.func.value, defs, depth + 1)
    if isinstance(e, ast.IfExp):
        return _faithful(e.body, defs, depth + 1) | _faithful(e.orelse, defs, depth + 1)
    if isinstance(e, ast.BoolOp):
        return set().union(*[_faithful(x, defs, depth + 1) for x in e.values])
    return set()


@rule('C01')
def finished_never_written(prog):
    r = RuleResult('finished-never-written', 'no method changes a finished object or a container it holds')
    for c in FINISHED:
        if c not in prog.classes:
            raise AnalysisBroken(f'public class {c} is missing')
    for (c, _), (o, m) in Runs.of(prog).own.items():
        r.instances += 1
        seen = set()
        for e in o.ev:
            if e.kind not in ('mutate', 'store') or e.loc[0] in ('a', 'fn'):
                continue
            if through_provider(o, e.loc):
                continue
            pre = prefixes(e.loc)
            hit = [p for p in pre if is_finished(prog, _cls(o, p))]
            if not hit:
                continue
            r.counts['writes_examined'] = r.counts.get('writes_examined', 0) + 1
            attr = e.op if e.kind == 'store' else next((p[2] for p in reversed(pre) if p[0] == 'f'), '')
            why = memo_problem(e.func, attr, e.node)
            if why is None:
                r.undecided.append(f'{e.where} {e.func.qual}: remembered answer in {attr} taken as transparent')
                continue
            key = (e.func.qual, attr, e.op)
            if key in seen:
                continue
            seen.add(key)
            what = path_str(e.loc, o.names) + (f'.{e.op} = ..' if e.kind == 'store' else f' ({e.op})')
            r.hit(e.where, f'{c}.{m.name}/{attr}', f'{e.func.qual} changes {what} of a finished {_cls(o, hit[0])}: {why}',
                  through(e))
    r.findings = dedup(r.findings)
    r.samples = [f'{c}.{n}' for c, n in list(Runs.of(prog).own)[:4]]
    return r


def dedup(fs):
    out, seen = [], set()
    for f in fs:
        k = (f.where, f.construct.split('/')[-1])
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


def reach(o, heap, locs, limit=4, skip_provider=True):
    """locations reachable through freshly allocated containers and objects"""
    out, seen = [], set()
    work = [(l, (), 0) for l in locs]
    while work:
        l, path, d = work.pop()
        if l in seen:
            continue
        seen.add(l)
        out.append((l, path))
        if l[0] == 'a' and d < limit and o.kinds.get(l) != 'view':
            if is_provider(o.prog, _cls(o, l)):
                continue
            for (b, k), v in heap.items():
                if b == l:
                    work += [(x, path + (k,), d + 1) for x in v]
    return out


def read_field(o, path):
    fs = [p for p in path if isinstance(p, str) and p not in ('*', '#k')]
    return all(o.reads.get(f) for f in fs)


@rule('C01')
def finished_owns_content(prog):
    r = RuleResult('finished-owns-content', 'a finished object never keeps a changeable container of the builder or '
                   'object it was made from')
    for (c, _), (o, m) in Runs.of(prog).own.items():
        if m.name == '__init__':
            continue
        for e in o.ev:
            if e.kind != 'construct' or not is_finished(prog, e.op):
                continue
            r.instances += 1
            for f, v in e.extra.items():
                if isinstance(f, int) or not o.reads.get(f):
                    continue
                for l, path in reach(o, o.final.heap, v):
                    if l[0] in ('f', 'e', 'k', 'p') and o.is_mutable(l) and not through_provider(o, l) \
                            and read_field(o, path):
                        r.hit(e.where, f'{e.op}.{f}', f'{e.func.qual} makes a {e.op} whose {f} is '
                              f'{path_str(l, o.names)} itself, not a copy', through(e))
    r.findings = dedup(r.findings)
    return r


def constructed(prog):
    out = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in prog.classes:
                out.add(n.func.id)
    return out


@rule('C02')
def constructors_copy(prog):
    r = RuleResult('no-sharing-in', 'no object keeps a changeable container of its caller')
    used = constructed(prog)
    for (c, _), (o, m) in Runs.of(prog).own.items():
        if c is None:
            continue
        if m.name == '__init__':
            if c not in used and any(c in k.bases for k in prog.classes.values()):
                continue        # a base whose subclasses decide what is passed on
            r.instances += 1
            bases = [o.self_loc]
        else:
            r.instances += 1
            bases = None
        for (b, k), v in list(o.final.heap.items()):
            if bases is not None:
                if b not in bases:
                    continue
            elif b[0] == 'a' or root(b) != ('p', 0):
                continue
            if through_provider(o, b) and not is_provider(prog, c):
                continue
            if isinstance(k, int) or (k not in ('*', '#k') and not o.reads.get(k)):
                continue
            for l, path in reach(o, o.final.heap, v):
                if l[0] not in ('p', 'f', 'e', 'k') or not o.is_mutable(l) or not read_field(o, path):
                    continue
                rt = root(l)
                if rt == o.self_loc or rt[0] != 'p':
                    continue
                if m.name != '__init__' and rt == ('p', 0):
                    continue
                r.hit(where(m), f'{c}.{m.name}/{k}', f'{c}.{m.name} keeps {path_str(l, o.names)} of its caller in {k} '
                      'without copying', [])
    r.findings = dedup(r.findings)
    return r


@rule('C02')
def returns_copy(prog):
    r = RuleResult('no-sharing-out', 'no method hands out a changeable container its object keeps using')
    for (c, _), (o, m) in Runs.of(prog).own.items():
        if c is None or m.name == '__init__' or (m.name.startswith('_') and not m.name.startswith('__')):
            continue
        r.instances += 1
        # lru_cache and friends hand the same container to every caller
        for l, path in reach(o, o.final.heap, o.returns):
            if l[0] == 'a' and not path and o.is_mutable(l) and any('cache' in d for d in m.decs):
                r.hit(where(m), f'{c}.{m.name}', 'the remembered result is a changeable container shared by all callers')
        for l, path in reach(o, o.final.heap, o.returns):
            if l[0] in ('f', 'e', 'k') and o.is_mutable(l) and root(l) == ('p', 0) and read_field(o, path):
                if through_provider(o, l) and not is_provider(prog, c) and not is_provider(prog, _cls(o, l[1])):
                    continue
                r.hit(where(m), f'{c}.{m.name}', f'the result gives access to {path_str(l, o.names)} itself, not a copy')
    r.findings = dedup(r.findings)
    return r


@rule('C02')
def arguments_untouched(prog):
    r = RuleResult('arguments-untouched', 'no public operation changes a container passed to it')
    for (c, _), (o, m) in Runs.of(prog).own.items():
        if m.name.startswith('_') and not m.name.startswith('__'):
            continue
        r.instances += 1
        for e in o.ev:
            if e.kind != 'mutate' or e.loc[0] in ('a', 'fn'):
                continue
            rt = root(e.loc)
            if rt[0] != 'p' or (rt == ('p', 0) and m.cls is not None and not m.static):
                continue
            if any(_cls(o, p) for p in prefixes(e.loc)) or not o.is_mutable(e.loc):
                continue
            r.hit(e.where, f'{c}.{m.name}', f'{e.func.qual} changes {path_str(e.loc, o.names)} ({e.op})', through(e))
    r.findings = dedup(r.findings)
    return r


@rule('C10')
def refusal_leaves_builder(prog):
    r = RuleResult('refusal-atomic', 'no check that can refuse a request follows a change the request already made')
    for c in BUILDERS:
        if c not in prog.classes:
            raise AnalysisBroken(f'public class {c} is missing')
    for (c, _), (o, m) in Runs.of(prog).own.items():
        if c not in BUILDERS or m.name.startswith('_') or m.name in BULK or m.static:
            continue
        for e in o.ev:
            if e.kind != 'refuse':
                continue
            r.instances += 1
            d = [(l, op) for l, op in e.dirty if not through_provider(o, l)
                 and not (l[0] == 'f' and l[2] in UNOBSERVED)]
            if e.extra and all((l, g) in d or any(x == l and y in GROW for x, y in d) for l in e.extra for g in ['']):
                continue     # asks whether something is there right after putting it there
            if d:
                r.hit(e.where, f'{c}.{m.name}', f'{e.func.qual} can refuse after '
                      + ', '.join(sorted({f'{path_str(l, o.names)} ({op})' for l, op in d})) + ' was already changed',
                      through(e))
    r.findings = dedup(r.findings)
    return r


@rule('C07')
def derived_keep_vocabulary(prog):
    r = RuleResult('vocabulary-kept', 'every object derived from another belongs to the vocabulary of the one it was '
                   'derived from')
    for (c, _), (o, m) in Runs.of(prog).own.items():
        if c is None or m.name == '__init__' or is_provider(prog, c):
            continue
        for e in o.ev:
            if e.kind != 'construct' or '_components_provider' not in e.extra:
                continue
            r.instances += 1
            if e.extra['_components_provider']:
                if all(l[0] == 'a' for l in e.extra['_components_provider']):
                    r.hit(e.where, f'{c}.{m.name}/{e.op}', f'{e.func.qual} makes a {e.op} over a new vocabulary',
                          through(e))
    r.findings = dedup(r.findings)
    return r
