import importlib.util
import os

_d = os.path.dirname(os.path.abspath(__file__))


def _load(n):
    spec = importlib.util.spec_from_file_location('seeds_' + n, os.path.join(_d, n + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


NET, GAME = _load('a').PRE, _load('b').PRE
SEEDS = {
    'D08': dict(property='C26', needs='a layout file whose text cannot be turned into a layout (ragged rows)',
                what='the layout file stays open when reading it fails',
                edits=[('demo/layout.py', "    try: return Layout([line.strip() for line in f])\n    finally: f.close()",
                        "    loaded = Layout([line.strip() for line in f])\n    f.close()\n    return loaded")],
                demo=GAME + '''
import builtins
opened = []
real = builtins.open
def recording(*a, **k):
    f = real(*a, **k)
    opened.append(f)
    return f
with real('bad.lay', 'w') as f:
    f.write('%%%\\n%\\n%%%\\n')
builtins.open = recording
try:
    layout.tryToLoad('bad.lay')
except IndexError:
    pass
finally:
    builtins.open = real
assert opened and all(f.closed for f in opened)
'''),
    'D09': dict(property='C31', needs='an update of an item that is deeper in the heap, to a priority below the root',
                what='a priority queue is not put back in order after an update',
                edits=[('demo/util.py', "                self.heap.append((priority, c, item))\n                heapq.heapify(self.heap)\n",
                        "                self.heap.append((priority, c, item))\n                if index == 0: heapq.heapify(self.heap)\n")],
                demo=GAME + '''
q = util.PriorityQueue()
q.push('x', 1)
q.push('y', 2)
q.update('y', 0)
assert q.pop() == 'y'
'''),
    'D10': dict(property='C30', needs='two states of the same score and agents that differ in the food left',
                what='game states are told apart by agents and score only unless they share their data',
                edits=[('demo/game.py', "        if not self.food == other.food: return False\n",
                        "        if not self.food == other.food and self.score != other.score: return False\n")],
                demo=GAME + '''
s, t = state(), state()
x, y = t.data.food.asList()[0]
t.data.food[x][y] = False
assert s != t
'''),
    'D11': dict(property='C33', needs='a game with quiet rules that is decided by the move of a ghost',
                what='the rules are not asked whether the game is over after a ghost moved when they are quiet',
                edits=[('demo/game.py', "            self.rules.process(self.state, self)\n",
                        "            if agentIndex == self.startingIndex or not getattr(self.rules, 'quiet', False): self.rules.process(self.state, self)\n")],
                demo=GAME + '''
class Counting(Rules):
    quiet = True
    seen = 0
    def process(self, s, g):
        self.seen += 1
        if len(g.moveHistory) >= 3 or s.isWin() or s.isLose():
            g.gameOver = True
r = Counting()
g = play([Walker(0), Walker(1), Walker(2)], rules=r)
assert r.seen == len(g.moveHistory), (r.seen, len(g.moveHistory))
'''),
    'D12': dict(property='C28', needs='a grid of more than thirty cells that is packed and rebuilt',
                what='the last number of a packed grid is left out when it is zero, so that grids pack to different lengths',
                edits=[('demo/game.py', "                currentInt = 0\n        bits.append(currentInt)\n",
                        "                currentInt = 0\n        if currentInt or len(bits) == 2:\n            bits.append(currentInt)\n")],
                demo=GAME + '''
g = Grid(1, 31)
g[0][3] = True
assert len(g.packBits()) == 4, g.packBits()
'''),
    'D13': dict(property='C26', needs='a layout whose ghosts are marked by numbers, in another order than they appear',
                what='the ghosts of a layout are numbered backwards',
                edits=[('demo/layout.py', "        self.agentPositions.sort()\n        self.agentPositions = [ ( i == 0, pos) for i, pos in self.agentPositions]",
                        "        self.agentPositions.sort(reverse=True)\n        self.agentPositions = self.agentPositions[-1:] + self.agentPositions[:-1]\n        self.agentPositions = [ ( i == 0, pos) for i, pos in self.agentPositions]")],
                demo=GAME + '''
l = layout.Layout(['%%%%%', '%1P2%', '%%%%%'])
assert l.agentPositions == [(True, (2, 1)), (False, (1, 1)), (False, (3, 1))], l.agentPositions
'''),
    'S10': dict(property='C09', needs='values that are false in Python, such as 0, and a set of samples that disagree on them',
                what='samples that hold different values of one variable count as having one value when the first is false',
                edits=[('relnet/sample_set.py', "                if node.variable in var_acc:\n", "                if var_acc.get(node.variable):\n")],
                demo=NET + '''
import itertools
p = BuilderComponentsProvider({'a': {0, 1}, 'b': {0, 1}}, {'r'})
s0 = SampleGraphBuilder(p).build_single_node('a', 0)
s1 = SampleGraphBuilder(p).build_single_node('a', 1)
assert not SampleSet(p, {s0: 1, s1: 1}).is_all_values_match()
assert not SampleSet(p, {s1: 1, s0: 1}).is_all_values_match()
'''),
    'S11': dict(property='C13', needs='a set of samples counted more than a thousand times in all, some of them once',
                what='rare samples are left out of the probabilities of a large set',
                edits=[('relnet/sample_set.py', "        props = {(o, c / self.length) for o, c in self._samples.items()}",
                        "        props = {(o, c / self.length) for o, c in self._samples.items() if c / self.length > 1e-10}")],
                demo=NET + '''
p = BuilderComponentsProvider({'a': {1, 2}}, {'r'})
s1 = SampleGraphBuilder(p).build_single_node('a', 1)
s2 = SampleGraphBuilder(p).build_single_node('a', 2)
assert len(SampleSet(p, {s1: 10 ** 11, s2: 1}).probabilities()) == 2
'''),
}
