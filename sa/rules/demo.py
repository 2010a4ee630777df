"""Typestate rules over the Pac-Man demo: the control loop, muting, time limits, layout search."""
import ast

from ..flow import Client, Flow, St, Undecided, NONE, TRUE, FALSE, age, mentions
from ..model import AnalysisBroken
from .base import RuleResult, rule

GAME = ('obj', 'Game', 'self')
AGENTS = ('attr', GAME, 'agents')
OUT, ERR = ('m', 'sys', 'stdout'), ('m', 'sys', 'stderr')
ORIG_OUT, ORIG_ERR = ('orig', 'stdout'), ('orig', 'stderr')


def need(prog, module, qual):
    f = prog.func(module, qual)
    if f is None:
        raise AnalysisBroken(f'{qual} is missing')
    return f


def has(v, pred):
    if pred(v):
        return True
    return isinstance(v, (tuple, frozenset)) and any(has(x, pred) for x in v)


def shallow(v, keep=0):
    """v without what the game states it mentions were made from (beyond the first keep of them)"""
    if not isinstance(v, tuple):
        return v
    if v[:1] == ('succ',) and len(v) > 2:
        if keep <= 0:
            return ('succ', v[1])
        return ('succ', v[1]) + tuple(shallow(x, keep - 1) for x in v[2:])
    return tuple(shallow(x, keep) for x in v)


class GameClient(Client):
    stable = frozenset({'muteAgents', 'catchExceptions', 'agents', 'startingIndex', 'rules', 'display', 'agentOutput',
                        'moveHistory'})
    atomic = frozenset({'given', 'reply', 'succ'})
    judging = False

    def __init__(self):
        super().__init__()
        self.entry = {}

    def is_atomic(self, v):
        return v[0] == 'item' and v[1] == ('attr', GAME, 'agentOutput')

    def agent_call(self, fn):
        if fn[0] == 'attr' and fn[1][0] == 'item' and fn[1][1] == AGENTS:
            return fn[1][2], fn[2]
        return None

    def state(self, fl, st, node):
        return fl.attr(st, GAME, 'state', node)[0][1]

    def call(self, fl, st, node, fn, args, kwargs):
        a = self.agent_call(fn)
        if a:
            idx, name = a
            site = fl.site(node)
            cur = self.state(fl, st, node)
            self.events.append(('agent', name, idx, tuple(args) + tuple(kwargs.values()), st.c.get(OUT),
                                st.c.get(ERR), cur, st.c.get(('@', 'given'), ('given', frozenset())), node,
                                fl.frames[-1].func))
            given = st.c.get(('@', 'given'), ('given', frozenset()))[1]
            given = {x for x in set(given) | set(args) if x[0] in ('copy', 'old', 'phi') and any(
                mentions(v, x) or v == x for k, v in st.c.items() if k != ('@', 'given'))}
            st = st.set(('@', 'given'), ('given', frozenset(given)))
            limited = any(f.func is not None and f.func.qual == 'TimeoutFunction.__call__' for f in fl.frames)
            bad = st.set(('@', 'failed'), TRUE)
            fl.raise_(bad, 'Exception')
            if limited:
                fl.raise_(bad.set(('@', 'timed'), TRUE), 'TimeoutFunctionException')
            v = ('reply', name, site, idx)
            if name == 'getAction':
                st = st.set(('@', 'recs'), ('c', 0)).set(('@', 'moved'), ('c', 0))
            return [(age(st, v), v)]
        if fn[0] == 'attr' and fn[2] == 'deepCopy' and not args:
            v = ('copy', fl.site(node), shallow(fn[1], 1))
            return [(age(st, v), v)]
        if fn == ('attr', ('m', 'copy'), 'deepcopy') and len(args) == 1:
            v = ('copy', fl.site(node), args[0])
            return [(age(st, v), v)]
        if fn[0] == 'attr' and fn[2] == 'generateSuccessor':
            args = tuple(args) + tuple(v for _, v in sorted(kwargs.items(), reverse=True))  # agentIndex, action
            if kwargs and len(args) == 2 and not fn[1] == NONE:
                names = ['agentIndex', 'action']
                got = dict(zip(names, args[:len(args) - len(kwargs)]))
                got.update(kwargs)
                args = tuple(got.get(n, ('sym', n)) for n in names)
            self.events.append(('move', fn[1], args, self.state(fl, st, node), node, st.c.get(OUT)))
            fl.raise_(st.set(('@', 'failed'), TRUE), 'Exception')
            v = ('succ', fl.site(node), shallow(fn[1]), shallow(args))
            s = age(st, v)
            if args:
                s = s.set(('@', 'mover'), ('mover', args[0])).set(('@', 'moved'), ('c', 1)).set(
                    ('@', 'judged'), FALSE).set(('@', 'shown'), FALSE)
            return [(s, v)]
        if fn == ('attr', ('attr', GAME, 'moveHistory'), 'append') and len(args) == 1:
            self.events.append(('record', args[0], node))
            n = st.c.get(('@', 'recs'))
            return [(st.set(('@', 'recs'), ('c', n[1] + 1)) if n and n[0] == 'c' and n[1] < 3 else st, NONE)]
        if fn[0] == 'attr' and fn[1] == ('attr', GAME, 'display') and fn[2] in ('initialize', 'update', 'finish'):
            self.events.append(('display', fn[2], tuple(args), self.state(fl, st, node), st.c.get(OUT), node))
            return [(st.set(('@', 'shown'), TRUE) if fn[2] == 'update' else st, NONE)]
        if fn[0] == 'attr' and fn[1] == ('attr', GAME, 'rules') and fn[2] == 'process':
            if not self.judging:
                self.events.append(('process', tuple(args), self.state(fl, st, node), node))
                self.judging = True
                try:
                    return fl.call_value(st.set(('@', 'judged'), TRUE), fn, args, kwargs, node)
                finally:
                    self.judging = False
        if fn[0] == 'attr' and fn[1][0] == 'm' and fn[1][1] in ('signal', 'time', 'traceback', 'io', 'boinc'):
            return [(st, ('call', fl.site(node), fn))]
        return None

    def setattr(self, fl, st, v, name, val, node):
        if v == GAME and name in ('agentCrashed', 'gameOver', 'agentTimeout') and val == TRUE:
            return [st.set(('@', name), TRUE).set(('h', v, name), val)]
        return None

    def backedge(self, fl, site, s, b):
        m = b.c.get(('@', 'mover'))
        if m and m[1][0] == 'phi' and m[1][1] == site:
            p = m[1]
            if b.c.get(('@', 'moved')) == ('c', 1):
                self.events.append(('round', b.c.get(('@', 'recs')), site))
                self.events.append(('seen', b.c.get(('@', 'judged')), b.c.get(('@', 'shown')), site))
            facts = frozenset((k, v) for k, v in b.f.items() if has(k, lambda x: x == p))
            self.events.append(('turn', p, b.c.get(p[2]), site, facts))

    def keeps(self, v):
        # where the turn stands is remembered
        return v[0] == 'cmp' and has(v, lambda x: isinstance(x, tuple) and x[:1] == ('phi',) and x[-1:] == (('l', 0, 'agentIndex'),)) \
            and not has(v, lambda x: isinstance(x, tuple) and x[:1] in (('reply',), ('call',), ('item',)))

    def loop_entry(self, fl, site, states):
        for s in states:
            for k, v in s.c.items():
                self.entry.setdefault((site, k), set()).add(v)


def game_runs(prog, _cache={}):
    """Game.run analysed for both values of muteAgents and catchExceptions"""
    if id(prog) in _cache:
        return _cache[id(prog)]
    run = need(prog, 'game', 'Game.run')
    out = {}
    for mute in (TRUE, FALSE):
        for catch in (TRUE, FALSE):
            cl = GameClient()
            fl = Flow(prog, cl)
            st = St({OUT: ORIG_OUT, ERR: ORIG_ERR, ('h', GAME, 'muteAgents'): mute,
                     ('h', GAME, 'catchExceptions'): catch, ('h', GAME, 'gameOver'): FALSE,
                     ('h', GAME, 'agentCrashed'): FALSE, ('h', GAME, 'agentTimeout'): FALSE})
            try:
                rets, raises = fl.run(run, st, GAME)
                out[(mute[1], catch[1])] = (cl, fl, rets, raises, None)
            except Undecided as e:
                out[(mute[1], catch[1])] = (cl, fl, [], [], str(e))
    _cache[id(prog)] = (run, out)
    return run, out


def loc(run, node):
    w = run.where.rsplit(':', 1)[0]
    return f'{w}:{getattr(node, "lineno", run.node.lineno)}'


def uniq(r, seen, where, construct, msg):
    if (where, msg) not in seen:
        seen.add((where, msg))
        r.hit(where, construct, msg)


@rule('C23', scope='demo')
def agents_get_copies(prog):
    r = RuleResult('agents_get_copies', 'every value handed to an agent during play is a fresh copy of the current '
                   'state, handed to nobody before, or what the agent\'s own observation function returned')
    run, runs = game_runs(prog)
    seen = set()
    asked = set()
    for mode, (cl, fl, rets, raises, why) in runs.items():
        if why:
            r.undecided.append(f'Game.run (muteAgents, catchExceptions)={mode}: {why}')
            continue
        for e in cl.events:
            if e[0] != 'agent' or e[1] == 'final':
                continue
            _, name, idx, args, _, _, cur, given, node, fn = e
            r.instances += 1
            asked.add(name)
            where = loc(fn or run, node)
            for a in args:
                if a[0] == 'copy' and a[2] == cur and a not in given[1]:
                    continue
                if a[0] == 'reply' and a[1] == 'observationFunction':
                    if a[3] != idx:
                        uniq(r, seen, where, f'Game.run -> {name}', 'an agent is shown what another agent observed')
                    continue
                is_state = lambda v: v == cur or (isinstance(v, tuple) and v[:3] == ('attr', GAME, 'state'))
                if a == cur or (a[0] in ('attr', 'item') and has(a, is_state) and not has(a, lambda v: isinstance(v, tuple) and v[:1] == ('copy',))):
                    uniq(r, seen, where, f'Game.run -> {name}', 'the agent is handed the game\'s own state, not a copy')
                elif a[0] == 'copy' and a in given[1] or a[0] == 'old' and a[1][0] == 'copy':
                    uniq(r, seen, where, f'Game.run -> {name}', 'the agent is handed a copy some agent has had before')
                elif a[0] == 'copy' and a[2][0] in ('attr', 'phi', 'succ', 'old') and a[2] != cur \
                        and has(a[2], is_state):
                    uniq(r, seen, where, f'Game.run -> {name}', 'the agent is handed a copy of an earlier state')
                else:
                    r.undecided.append(f'{where} {name} receives {str(a)[:80]}')
    if not r.instances and not r.undecided:
        raise AnalysisBroken('no agent is ever asked in Game.run')
    r.counts = dict(agent_entry_points=len(asked))
    r.samples = [f'agent.{n} receives a fresh copy of the current state on every path' for n in sorted(asked)]
    return r


def at_end(p, n, facts):
    """p is the last turn: True / False / None (not known)"""
    def lin(t):
        if t == p:
            return 'p', 0
        if t == n:
            return 'n', 0
        if t and t[0] == 'op' and t[1] in ('Add', 'Sub') and t[3][0] == 'c' and isinstance(t[3][1], int):
            x = lin(t[2])
            return x and (x[0], x[1] + (t[3][1] if t[1] == 'Add' else -t[3][1]))
        if t and t[0] == 'op' and t[1] == 'Add' and t[2][0] == 'c' and isinstance(t[2][1], int):
            x = lin(t[3])
            return x and (x[0], x[1] + t[2][1])
        return None
    for k, v in facts:
        if k[0] != 'cmp' or k[1] not in ('Eq', 'Lt'):
            continue
        a, b = lin(k[2]), lin(k[3])
        if not a or not b or {a[0], b[0]} != {'p', 'n'}:
            continue
        if k[1] == 'Eq':
            d = (b[1] - a[1]) if a[0] == 'p' else (a[1] - b[1])     # p == n + d
            if d == -1:
                return v
        elif a[0] == 'p':
            d = b[1] - a[1]                                          # p < n + d
            if d == -1:
                return not v
            return 'bad'
        else:
            d = b[1] - a[1]                                          # n < p + d  (n <= p + d - 1)
            if d == 2:
                return v
            return 'bad'
    return None


def plus_one(v, p, n, facts=()):
    """v is (p + 1) mod n: True / False (surely not) / None"""
    if v == p or v == ('attr', GAME, 'startingIndex') or v and v[0] == 'c' and v[1] != 0:
        return False
    end = at_end(p, n, facts)
    if v == ('c', 0):
        return None if end is None else end is True
    if v and v[0] == 'op' and v[1] == 'Add' and (v[2:] == (p, ('c', 1)) or v[2:] == (('c', 1), p)):
        return None if end is None else end is False
    if v and v[0] == 'op' and v[1] == 'Mod':
        a, m = v[2], v[3]
        if m != n and not (m[0] in ('call', 'phi', 'sym')):
            return False
        if a == p:
            return False
        if a[0] == 'op' and a[1] == 'Add':
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if x == p and y[0] == 'c':
                    return (y[1] == 1 and m == n) or (False if y[1] != 1 else None)
        if a[0] == 'op' and a[1] == 'Sub' and a[2] == p and a[3][0] == 'c':
            return False
        return None
    if v and v[0] == 'op' and v[1] in ('Add', 'Sub') and v[2] == p and v[3][0] == 'c':
        return None
    return None


@rule('C33', scope='demo')
def moves_are_the_agents(prog):
    r = RuleResult('moves_are_the_agents', 'in every round the action played is the one the agent in turn returned, '
                   'it is applied to the current state for that agent, recorded as such, becomes the current state, '
                   'and the turn passes to the next agent')
    run, runs = game_runs(prog)
    seen = set()
    for mode, (cl, fl, rets, raises, why) in runs.items():
        if why:
            r.undecided.append(f'Game.run (muteAgents, catchExceptions)={mode}: {why}')
            continue
        n = ('pure', 'len', AGENTS)
        recs = {e[1] for e in cl.events if e[0] == 'record'}
        moves = [e for e in cl.events if e[0] == 'move']
        for _, on, args, cur, node, out in moves:
            r.instances += 1
            where = loc(run, node)
            if len(args) != 2:
                r.undecided.append(f'{where}: arguments of the move')
                continue
            idx, act = args
            if on != cur and on[0] in ('attr', 'phi', 'succ', 'copy', 'old'):
                uniq(r, seen, where, 'Game.run', 'the action is not applied to the current state')
            if act[0] == 'reply' and act[1] == 'getAction':
                if act[3] != idx:
                    uniq(r, seen, where, 'Game.run', 'the action of one agent is played for another')
            elif act[0] == 'c' or act[0] in ('old', 'phi') and has(act, lambda v: isinstance(v, tuple) and v[:1] == ('reply',)) \
                    or act[0] == 'reply':
                uniq(r, seen, where, 'Game.run', 'the action played is not the one the agent just returned')
            else:
                r.undecided.append(f'{where}: action {str(act)[:60]}')
            if recs and ('tuple', idx, act) not in recs:
                bad = [x for x in recs if x[0] == 'tuple' and len(x) == 3]
                if bad and len(bad) == len(recs):
                    uniq(r, seen, where, 'Game.run', 'the move history records something else than the move played')
        if moves and not recs:
            uniq(r, seen, run.where, 'Game.run', 'moves are no longer recorded')
        for _, k, site in [e for e in cl.events if e[0] == 'round']:
            r.instances += 1
            if recs and k and k[0] == 'c' and k[1] != 1:
                uniq(r, seen, f'{run.where.rsplit(":", 1)[0]}:{site.split(":")[1]}', 'Game.run',
                     'a round can pass with the move recorded ' + ('twice' if k[1] else 'not at all'))
        asked = {x: any(e[0] == x for e in cl.events) for x in ('process', 'display')}
        for _, judged, shown, site in [e for e in cl.events if e[0] == 'seen']:
            r.instances += 1
            for what, v, text in (('process', judged, 'the rules are not asked about the new state'),
                                  ('display', shown, 'the display is not shown the new state')):
                if asked[what] and v == FALSE:
                    uniq(r, seen, f'{run.where.rsplit(":", 1)[0]}:{site.split(":")[1]}', 'Game.run',
                         f'a round can pass in which {text}')
        for _, p, v, site, facts in [e for e in cl.events if e[0] == 'turn']:
            r.instances += 1
            ok = plus_one(v, p, n, facts)
            if ok is False:
                uniq(r, seen, f'{run.where.rsplit(":", 1)[0]}:{site.split(":")[1]}', 'Game.run',
                     'the turn does not pass to the next agent')
            elif ok is None:
                r.undecided.append(f'turn passes to {str(v)[:60]}')
            first = cl.entry.get((site, p[2]), set())
            for f in first:
                if f != ('attr', GAME, 'startingIndex') and f[0] in ('c', 'attr'):
                    uniq(r, seen, run.where, 'Game.run', 'play does not start with the starting agent')
        for e in cl.events:
            if e[0] == 'display' and e[1] in ('update',) and e[2]:
                r.instances += 1
                if not (e[2][0][0] == 'attr' and e[2][0][1] == e[3]) and e[2][0] != e[3] \
                        and e[2][0][0] == 'attr' and e[2][0][1][0] in ('phi', 'old', 'attr'):
                    uniq(r, seen, loc(run, e[5]), 'Game.run', 'the display is shown an earlier state')
            if e[0] == 'process' and e[1]:
                r.instances += 1
                if e[1][0] != e[2] and e[1][0][0] in ('phi', 'old', 'succ', 'attr'):
                    uniq(r, seen, loc(run, e[3]), 'Game.run', 'the rules judge another state than the current one')
            if e[0] == 'process' and e[1] and e[2][0] != 'succ' and e[2][0] in ('phi',):
                uniq(r, seen, loc(run, e[3]), 'Game.run', 'the successor state does not become the current state')
    if not r.instances and not r.undecided:
        raise AnalysisBroken('no move is ever played in Game.run')
    return r


def muted(v):
    return v is not None and (v[0] in ('item', 'obj') or v == NONE or v[0] == 'old')


@rule('C24', scope='demo')
def streams_restored(prog):
    r = RuleResult('streams_restored', 'on every return of the control loop the output streams are the ones it '
                   'started with, agent code runs only while its output is captured, and captures go to its own buffer')
    run, runs = game_runs(prog)
    seen = set()
    for (mute, catch), (cl, fl, rets, raises, why) in runs.items():
        if why:
            r.undecided.append(f'Game.run (muteAgents, catchExceptions)={(mute, catch)}: {why}')
            continue
        for st, _ in rets:
            r.instances += 1
            for cell, orig in ((OUT, ORIG_OUT), (ERR, ORIG_ERR)):
                v = st.c.get(cell)
                if v == orig:
                    continue
                if muted(v) or v in (ORIG_OUT, ORIG_ERR):
                    uniq(r, seen, run.where, 'Game.run', f'a path returns with {cell[2]} still redirected '
                         f'(muteAgents={mute}, catchExceptions={catch}, agent failed={st.c.get(("@", "failed")) == TRUE}, timed out={st.c.get(("@", "timed")) == TRUE})')
                else:
                    r.undecided.append(f'Game.run returns with {cell[2]} = {str(v)[:60]}')
        for e in cl.events:
            if e[0] == 'agent':
                r.instances += 1
                _, name, idx, args, o, er, cur, given, node, fn = e
                where = loc(fn or run, node)
                if mute and (o == ORIG_OUT or er == ORIG_ERR):
                    uniq(r, seen, where, f'Game.run -> {name}', 'an agent of a muted game runs with its output shown')
                if not mute and muted(o):
                    uniq(r, seen, where, f'Game.run -> {name}', 'an agent of an unmuted game runs muted')
                if mute and any(x and x[0] == 'item' and x[1] == ('attr', GAME, 'agentOutput') and x[2] != idx
                                and x[2][0] in ('idx', 'phi', 'c', 'old') for x in (o, er)):
                    uniq(r, seen, where, f'Game.run -> {name}', 'an agent\'s output goes to another agent\'s buffer')
            if e[0] == 'move' and muted(e[5]) or e[0] == 'display' and muted(e[4]):
                r.instances += 1
                uniq(r, seen, loc(run, e[4] if e[0] == 'move' else e[5]), 'Game.run', 'the game goes on with its output still redirected')
        if catch:
            for st, tag in raises:
                r.instances += 1
                if st.c.get(('@', 'failed')) == TRUE:
                    uniq(r, seen, run.where, 'Game.run', f'a failure of an agent ({tag}) leaves the control loop although failures are to be caught')
            for st, _ in rets:
                if st.c.get(('@', 'failed')) == TRUE:
                    r.instances += 1
                    for a in ('agentCrashed', 'gameOver'):
                        if st.c.get(('@', a)) != TRUE:
                            uniq(r, seen, run.where, 'Game.run', f'a caught failure of an agent ends play without {a} being set')
                if st.c.get(('@', 'timed')) == TRUE and st.c.get(('@', 'agentTimeout')) != TRUE:
                    uniq(r, seen, run.where, 'Game.run', 'an agent that ran out of time is not recorded as timed out')
    # mutePrint / unmutePrint
    m, u = prog.func('util', 'mutePrint'), prog.func('util', 'unmutePrint')
    if m and u:
        fl = Flow(prog, Client())
        for seq, expect in (((m, u), ORIG_OUT), ((m, m, u), ORIG_OUT), ((u,), ORIG_OUT), ((m, u, u), ORIG_OUT),
                            ((m, u, m, u), ORIG_OUT), ((m,), None), ((m, u, m), None)):
            r.instances += 1
            try:
                states = [St({OUT: ORIG_OUT, ERR: ORIG_ERR, ('g', 'util', '_MUTED'): FALSE})]
                for f in seq:
                    states = [s for x in states for s, _ in fl.run(f, x)[0]]
            except Undecided as e:
                r.undecided.append(f'mutePrint: {e}')
                continue
            for s in states:
                v = s.c.get(OUT)
                if expect is not None and v != expect and (muted(v) or v == NONE):
                    uniq(r, seen, u.where, 'unmutePrint', 'printing stays off after ' + ', '.join(f.name for f in seq))
                if expect is None and v == ORIG_OUT:
                    uniq(r, seen, m.where, 'mutePrint', 'printing stays on after ' + ', '.join(f.name for f in seq))
    r.samples = [f'{len(rets)} return states, {len(cl.events)} events for (muteAgents, catchExceptions)={k}'
                 for k, (cl, fl, rets, raises, why) in runs.items()]
    return r


class AlarmClient(Client):
    atomic = frozenset({'armed'})

    def call(self, fl, st, node, fn, args, kwargs):
        me = ('obj', 'TimeoutFunction', 'self')
        if fn == ('attr', me, 'function'):
            self.events.append(('run', st.c[('@', 'alarm')], st.c[('@', 'handler')], tuple(args), dict(kwargs),
                                st.c.get(('@', 'sig')), node))
            st = st.set(('@', 'ran'), TRUE)
            for t in ('TimeoutFunctionException', 'Exception', 'KeyboardInterrupt'):
                fl.raise_(st.set(('@', 'failed'), ('tag', t)), t)
            return [(st, ('result',))]
        if fn[0] == 'attr' and fn[1] == ('m', 'signal'):
            if fn[2] == 'signal' and len(args) == 2:
                old = st.c[('@', 'handler')]
                self.events.append(('handler', args[1], st.c[('@', 'alarm')], node))
                return [(st.set(('@', 'handler'), args[1]), old)]
            if fn[2] in ('alarm', 'setitimer') and args:
                t = args[-1] if fn[2] == 'setitimer' else args[0]
                v = FALSE if t == ('c', 0) or t == ('c', 0.0) else ('armed', t)
                self.events.append(('alarm', v, st.c[('@', 'handler')], node))
                return [(st.set(('@', 'alarm'), v), ('c', 0))]
            if fn[2] == 'getsignal':
                return [(st, st.c[('@', 'handler')])]
        if fn == ('b', 'hasattr') and args == [('m', 'signal'), ('c', 'SIGALRM')]:
            return [(st.set(('@', 'sig'), TRUE), TRUE), (st.set(('@', 'sig'), FALSE), FALSE)]
        return None


def other_limit(v, limit):
    """surely not the limit itself for every limit"""
    if v[0] == 'c' and not isinstance(v[1], str):
        return True
    if v[0] == 'op' and v[1] in ('Add', 'Sub') and limit in v[2:]:
        o = [x for x in v[2:] if x != limit]
        return bool(o) and o[0][0] == 'c' and o[0][1] != 0
    if v[0] == 'op' and v[1] in ('Mult', 'FloorDiv', 'Div') and limit in v[2:]:
        o = [x for x in v[2:] if x != limit]
        return bool(o) and o[0][0] == 'c' and o[0][1] != 1
    if v[0] == 'pure' and v[1] in ('max', 'min') and limit in v[2:]:
        o = [x for x in v[2:] if x != limit]
        return any(x[0] == 'c' and (v[1] == 'min' or not isinstance(x[1], (int, float)) or x[1] > 0) for x in o)
    return False


@rule('C25', scope='demo')
def time_limit(prog):
    r = RuleResult('time_limit', 'the guarded function runs with the alarm armed for the limit and the handler '
                   'installed; on every way out the alarm is off and the previous handler is back; its result, its '
                   'arguments and its failures pass through')
    f = need(prog, 'util', 'TimeoutFunction.__call__')
    me = ('obj', 'TimeoutFunction', 'self')
    cl = AlarmClient()
    fl = Flow(prog, cl)
    seen = set()
    HANDLER = ('attr', me, 'handle_timeout')
    try:
        st = St({('@', 'alarm'): FALSE, ('@', 'handler'): ('orig', 'handler')})
        rets, raises = fl.run(f, st, me, [('sym', 'ARG')], {'key': ('sym', 'KEYARG')})
    except Undecided as e:
        r.undecided.append(str(e))
        return r
    for kind, states in (('returns', rets), ('fails', raises)):
        for s, v in states:
            r.instances += 1
            a, h = s.c[('@', 'alarm')], s.c[('@', 'handler')]
            if a != FALSE:
                uniq(r, seen, f.where, f.qual, f'a path {kind} with the alarm still armed')
            if h != ('orig', 'handler'):
                if h == HANDLER or h[0] in ('c',) or h[:2] == ('attr', ('m', 'signal')):
                    uniq(r, seen, f.where, f.qual, f'a path {kind} without the previous alarm handler restored')
                else:
                    r.undecided.append(f'{kind} with handler {str(h)[:60]}')
            if kind == 'returns' and s.c.get(('@', 'ran')) != TRUE:
                uniq(r, seen, f.where, f.qual, 'a path returns without running the guarded function')
            if kind == 'returns' and s.c.get(('@', 'failed')) is not None:
                uniq(r, seen, f.where, f.qual, f'a failure of the guarded function ({s.c[("@", "failed")][1]}) is swallowed')
            if kind == 'returns' and v != ('result',) and v[0] == 'c':
                uniq(r, seen, f.where, f.qual, 'the result of the guarded function is lost')
            if kind == 'fails' and s.c.get(('@', 'failed')) is not None and v != s.c[('@', 'failed')][1] \
                    and s.c[('@', 'failed')][1] == 'TimeoutFunctionException':
                uniq(r, seen, f.where, f.qual, 'a time-out is reported as another failure')
    runs = [e for e in cl.events if e[0] == 'run']
    for _, a, h, args, kw, sig, node in runs:
        r.instances += 1
        if sig == TRUE:
            if a == FALSE:
                uniq(r, seen, loc(f, node), f.qual, 'the guarded function runs without the alarm armed')
            elif a[0] == 'armed' and other_limit(a[1], ('attr', me, 'timeout')):
                uniq(r, seen, loc(f, node), f.qual, 'the alarm is armed for another time than the limit')
            elif a != ('armed', ('attr', me, 'timeout')):
                r.undecided.append(f'alarm armed for {str(a)[:60]}')
            if h == ('orig', 'handler'):
                uniq(r, seen, loc(f, node), f.qual, 'the guarded function runs without the time-out handler installed')
        if args != (('sym', 'ARG'),) or kw != {'key': ('sym', 'KEYARG')}:
            if not any(x[0] == 'star' for x in args):
                uniq(r, seen, loc(f, node), f.qual, 'arguments of the guarded function are lost')
    for e in cl.events:
        if e[0] == 'alarm' and e[1] != FALSE and e[2] == ('orig', 'handler'):
            uniq(r, seen, loc(f, e[3]), f.qual, 'the alarm is armed before its handler is installed: an early alarm ends the process')
        if e[0] == 'handler' and e[1] == ('orig', 'handler') and e[2] != FALSE:
            uniq(r, seen, loc(f, e[3]), f.qual, 'the previous handler comes back while the alarm is armed: a late alarm ends the process')
    init = prog.func('util', 'TimeoutFunction.__init__')
    if init is not None:
        r.instances += 1
        try:
            for s, _ in Flow(prog, Client()).run(init, St(), me, [('sym', 'FUNCTION'), ('sym', 'LIMIT')])[0]:
                v = s.c.get(('h', me, 'timeout'))
                if v is not None and v != ('sym', 'LIMIT') and other_limit(v, ('sym', 'LIMIT')):
                    uniq(r, seen, init.where, init.qual, 'the limit kept is not the one given')
        except Undecided as e:
            r.undecided.append(str(e))
    h = prog.func('util', 'TimeoutFunction.handle_timeout')
    if h is not None:
        r.instances += 1
        fl = Flow(prog, Client())
        try:
            rets, raises = fl.run(h, St(), me, [('sym', 'signum'), ('sym', 'frame')])
            if rets:
                uniq(r, seen, h.where, h.qual, 'the time-out handler can return without raising')
            for s, t in raises:
                if not fl.is_sub(t, 'TimeoutFunctionException') and t != 'Exception':
                    uniq(r, seen, h.where, h.qual, f'the time-out handler raises {t}')
        except Undecided as e:
            r.undecided.append(str(e))
    if not runs:
        raise AnalysisBroken('TimeoutFunction.__call__ never runs the guarded function')
    r.counts = dict(paths=len(rets) + len(raises))
    return r


class CwdClient(Client):
    atomic = frozenset({'dir', 'open', 'closed'})

    def __init__(self, files=True):
        super().__init__()

    def call(self, fl, st, node, fn, args, kwargs):
        cwd = st.c[('@', 'cwd')]
        if fn[0] == 'attr' and fn[1] == ('m', 'os') or fn[0] == 'attr' and fn[1] == ('attr', ('m', 'os'), 'path'):
            if fn[2] in ('getcwd',) or fn[2] in ('abspath', 'realpath') and args and args[0] in (('c', '.'), ('c', ''), ('attr', ('m', 'os'), 'curdir')):
                return [(st, ('dir', cwd))]
            if fn[2] == 'chdir' and args:
                v = args[0]
                if v[0] == 'dir':
                    new = v[1]
                elif v == ('c', '.'):
                    new = cwd
                else:
                    new = ('under', cwd, v) if fl.deep(cwd) < 6 else ('under', '...')
                return [(st.set(('@', 'cwd'), new), NONE)]
            return [(st, ('call', fl.site(node), fn) + tuple(args))]
        if fn == ('b', 'open') or fn == ('attr', ('m', 'io'), 'open'):
            fl.raise_(st, 'OSError')
            v = ('file', fl.site(node))
            return [(st.set(('@', 'file', v), ('open',)), v)]
        if fn[0] == 'attr' and fn[1][0] == 'file':
            if fn[2] == 'close':
                return [(st.set(('@', 'file', fn[1]), ('closed',)), NONE)]
            if fn[2] in ('read', 'readlines', 'readline', 'write'):
                fl.raise_(st, 'OSError')
            return [(st, ('call', fl.site(node), fn))]
        if fn == ('cls', 'Layout'):
            self.events.append(('layout', node))
            fl.raise_(st, 'IndexError')
            return [(st, ('layout', fl.site(node)))]
        if fn[0] == 'b' and any(a[0] == 'file' for a in args):
            fl.raise_(st, 'OSError')
        return None

    def iterate(self, fl, st, v, node):
        if v[0] == 'file':
            fl.raise_(st, 'OSError')

    def enter(self, fl, st, v, node):
        if v[0] == 'file':
            return [(st, v)]
        return None

    def exit(self, fl, st, v, node):
        if v[0] == 'file':
            return [st.set(('@', 'file', v), ('closed',))]
        return None

    def recursive(self, fl, st, func, args, kwargs, node):
        # by induction the search leaves the directory as it found it, on success and on failure
        fl.raise_(st, 'IndexError')
        return [(st, NONE), (st, ('layout', 'rec'))]


@rule('C26', scope='demo')
def layout_search(prog):
    r = RuleResult('layout_search', 'on every way out of the layout search the working directory is the one it '
                   'started in and every file it opened is closed')
    seen = set()
    for qual in ('getLayout', 'tryToLoad'):
        f = need(prog, 'layout', qual)
        cl = CwdClient()
        fl = Flow(prog, cl)
        try:
            params = [('sym', 'NAME')] + [('sym', 'BACK')] * (len(f.node.args.args) - 1)
            rets, raises = fl.run(f, St({('@', 'cwd'): ('orig', 'cwd')}), None, params)
        except Undecided as e:
            r.undecided.append(f'{qual}: {e}')
            continue
        for kind, states in (('returns', rets), ('fails', raises)):
            for s, _ in states:
                r.instances += 1
                if s.c[('@', 'cwd')] != ('orig', 'cwd'):
                    uniq(r, seen, f.where, qual, f'a path {kind} in another working directory than it started in')
                for k, v in s.c.items():
                    if k[0] == '@' and k[1] == 'file' and v == ('open',):
                        uniq(r, seen, f.where, qual, f'a path {kind} with a layout file left open')
        r.samples.append(f'{qual}: {len(rets)} return and {len(raises)} failure states')
    return r


# ---- ownership in the game state ----------------------------------------------------------------
from ..own import Own, path_str, root            # noqa: E402
from .demo_model import HINTS, PARAMS            # noqa: E402
from .ownership import reach                     # noqa: E402

# what a caller may ask of a state, its parts and an agent; helpers are examined through their callers
ASKED = {
    'GameState': 'getLegalActions generateSuccessor getLegalPacmanActions generatePacmanSuccessor getPacmanState '
                 'getPacmanPosition getGhostStates getGhostState getGhostPosition getGhostPositions getNumAgents getScore '
                 'getCapsules getNumFood getFood getWalls hasFood hasWall isLose isWin deepCopy __eq__ __hash__ __str__',
    'GameStateData': 'deepCopy copyAgentStates __eq__ __hash__',
    'Grid': '__getitem__ __str__ __eq__ __hash__ copy deepCopy shallowCopy count asList packBits',
    'AgentState': '__str__ __eq__ __hash__ copy getPosition getDirection',
    'Configuration': 'getPosition getDirection isInteger __eq__ __hash__ __str__ generateSuccessor',
    'Actions': 'reverseDirection vectorToDirection directionToVector getPossibleActions getLegalNeighbors getSuccessor',
    'Layout': 'getNumGhosts isWall getRandomLegalPosition getRandomCorner getFurthestCorner isVisibleFrom __str__ deepCopy',
}
AGENT_ASKED = ('getAction', 'getDistribution', 'registerInitialState', 'observationFunction', 'final')


def subject(prog):
    """(class, method) pairs that must leave the states they are given alone"""
    for c, names in ASKED.items():
        if c not in prog.classes:
            raise AnalysisBroken(f'class {c} is missing')
        for n in names.split():
            m = prog.classes[c].methods.get(n)
            if m and not m.abstract:
                yield c, m
    for mod in prog.modules.values():
        for c in mod.classes.values():
            if c.name not in ASKED and prog.subclass_of(c.name, 'Agent'):
                for n, m in c.methods.items():
                    if n in AGENT_ASKED and len(m.node.args.args) > 1:
                        yield c.name, m


@rule('C21', scope='demo')
def states_left_alone(prog):
    r = RuleResult('states_left_alone', 'no query, copy, comparison, legal-move computation, successor computation or '
                   'agent decision writes to a state (or part of a state) it was given')
    done = {m.qual for _, m in subject(prog)}
    writes = 0
    for c, m in subject(prog):
        o = Own(prog, HINTS, PARAMS)
        seen = set()
        try:
            for _ in o.cases(m, c):
                r.instances += 1
                for e in o.ev:
                    if e.kind not in ('mutate', 'store'):
                        continue
                    writes += 1
                    rt = root(e.loc)
                    if rt[0] != 'p':
                        continue
                    if prog.subclass_of(c, 'Agent') and rt == ('p', 0):
                        continue            # an agent may remember things
                    # reported where the callee itself is examined
                    if any(f.qual in done and f.qual != m.qual for f in e.stack):
                        continue
                    what = path_str(e.loc, o.names) + (f'.{e.op} = ..' if e.kind == 'store' else f' ({e.op})')
                    if (what, e.where) not in seen:
                        seen.add((what, e.where))
                        r.hit(e.where, f'{m.qual}/{what}', f'{m.qual} changes {what} of a state it was given',
                              [f'{f.where} {f.qual}' for f in e.stack])
        except RecursionError:
            r.undecided.append(m.qual)
        if o.depth_cut:
            r.undecided.append(f'{m.qual}: {o.depth_cut} calls beyond the inlining depth')
    r.counts = dict(methods=len(done), writes_examined=writes)
    r.samples = sorted(done)[:6]
    return r


COPIES = [('GameState', 'deepCopy'), ('GameStateData', 'deepCopy'), ('Grid', 'copy'), ('Grid', 'deepCopy'),
          ('AgentState', 'copy'), ('GameStateData', 'copyAgentStates'), ('Layout', 'deepCopy')]


@rule('C28', scope='demo')
def copies_share_nothing(prog):
    r = RuleResult('copies_share_nothing', 'a copy of a state shares no grid, list or agent record with the original, '
                   'so changing the copy never shows in the original')
    for c, n in COPIES:
        m = prog.find_method(c, n)
        if m is None:
            raise AnalysisBroken(f'{c}.{n} is missing')
        o = Own(prog, HINTS, PARAMS)
        for _ in o.cases(m, c):
            r.instances += 1
            for l, path in reach(o, o.final.heap, o.returns, limit=6):
                if root(l)[0] != 'p' or 'layout' in path:
                    continue
                s = o.shp(l)
                shared = s[0] in ('list', 'set', 'dict') and o.is_mutable(l) or s[0] == 'cls' and s[1] in (
                    'Grid', 'AgentState', 'GameStateData', 'GameState')
                r.counts['parts'] = r.counts.get('parts', 0) + 1
                if shared:
                    r.hit(m.where, f'{c}.{n}/{".".join(map(str, path))}', f'the copy made by {c}.{n} shares '
                          f'{path_str(l, o.names)} with the original (as {".".join(map(str, path)) or "the result"})')
    return r


@rule('C26', scope='demo')
def layout_lines(prog):
    r = RuleResult('layout_lines', 'no line of a layout file is left out because of what it contains, other than blank ones')
    for f in [prog.func('layout', q) for q in ('tryToLoad', 'getLayout')]:
        if f is None:
            continue
        files = set()
        for n in ast.walk(f.node):
            made = None
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                made = n.targets[0], n.value
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                made = n.optional_vars, n.context_expr
            if made and isinstance(made[0], ast.Name) and isinstance(made[1], ast.Call) and (
                    isinstance(made[1].func, ast.Name) and made[1].func.id == 'open'):
                files.add(made[0].id)

        def of_file(e):
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'readlines' and not e.args:
                e = e.func.value
            return isinstance(e, ast.Name) and e.id in files

        def picks(e):
            """the condition looks at more than whether the line is blank"""
            return any(isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value.strip()
                       or isinstance(c, ast.Attribute) and c.attr in ('startswith', 'endswith') for c in ast.walk(e))
        for n in ast.walk(f.node):
            if isinstance(n, (ast.ListComp, ast.GeneratorExp)):
                g = n.generators[0]
                if of_file(g.iter) and isinstance(g.target, ast.Name):
                    r.instances += 1
                    if any(picks(c) for c in g.ifs):
                        r.hit(loc(f, n), f.qual, 'lines of the layout file are left out by their content')
                elif isinstance(g.iter, ast.Subscript) and of_file(g.iter.value) and isinstance(g.iter.slice, ast.Slice):
                    r.instances += 1
                    r.hit(loc(f, n), f.qual, 'a part of the layout file is left out')
    return r


@rule('C28', scope='demo')
def rows_not_shared(prog):
    r = RuleResult('rows_not_shared', 'no list kept in a grid, state or layout repeats one inner list several times')

    def mutable(e):
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
            return isinstance(e.left, (ast.List, ast.ListComp)) or isinstance(e.right, (ast.List, ast.ListComp))
        return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or \
            isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'dict', 'set')
    for q in ('Grid', 'GameStateData', 'AgentState', 'Layout', 'GameState'):
        c = prog.classes.get(q)
        for f in (c.methods.values() if c else ()):
            names = {}
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            names[t.id] = n.value
            r.instances += 1
            for n in ast.walk(f.node):
                if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult):
                    l = n.left if isinstance(n.left, ast.List) else n.right
                    if isinstance(l, ast.List) and any(
                            mutable(names.get(x.id, x) if isinstance(x, ast.Name) else x) for x in l.elts) and not (
                            isinstance(n.right if l is n.left else n.left, ast.Constant) and
                            (n.right if l is n.left else n.left).value in (0, 1)):
                        r.hit(loc(f, n), f.qual, 'every repetition is the same inner list')
    return r
