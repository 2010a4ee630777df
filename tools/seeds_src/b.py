PRE = '''
import sys, os, random, signal, time
import layout, util, game, pacman
from game import *
from pacman import GameState, ClassicGameRules

LAY = """%%%%%%%%
%P.o.G.%
%.%%%%.%
%..G...%
%%%%%%%%""".split()


def state(lines=LAY, ghosts=2):
    s = GameState()
    s.initialize(layout.Layout(list(lines)), ghosts)
    return s


class Display:
    def initialize(self, *a): pass
    def update(self, *a): pass
    def finish(self, *a): pass


class Rules(ClassicGameRules):
    def getMaxTotalTime(self, i): return 100
    def getMaxStartupTime(self, i): return 100
    def getMoveWarningTime(self, i): return 100
    def getMoveTimeout(self, i): return 100
    def getMaxTimeWarnings(self, i): return 0
    def agentCrash(self, g, i): g.gameOver = True


class Walker(Agent):
    def getAction(self, state):
        return random.Random(self.index).choice(state.getLegalActions(self.index))


def play(agents, s=None, rules=None, mute=False, catch=False):
    g = Game(agents, Display(), rules or Rules(), muteAgents=mute, catchExceptions=catch)
    g.state = s or state()
    g.run()
    return g
'''
SEEDS = {
    'D01': dict(property='C24', needs='a muted game with exceptions caught in which an agent spends its total time budget',
                what='the output streams stay redirected into the agent\'s buffer after a game ended by the total time limit',
                edits=[('demo/game.py', '''ran out of time! (time: %1.2f)" % (agentIndex, self.totalAgentTimes[agentIndex]), file=sys.stderr)
                        self.agentTimeout = True
                        self._agentCrash(agentIndex, quiet=True)
                        self.unmute()
                        return
''', '''ran out of time! (time: %1.2f)" % (agentIndex, self.totalAgentTimes[agentIndex]), file=sys.stderr)
                        self.agentTimeout = True
                        self._agentCrash(agentIndex, quiet=True)
                        return
''')],
                demo=PRE + '''
class Slow(Walker):
    def getAction(self, s):
        time.sleep(0.02)
        return Directions.STOP

class R(Rules):
    def getMaxTotalTime(self, i): return 0.01

out, err = sys.stdout, sys.stderr
play([Slow(0), Walker(1), Walker(2)], rules=R(), mute=True, catch=True)
ok = sys.stdout is out and sys.stderr is err
sys.stdout, sys.stderr = out, err
assert ok
'''),
    'D02': dict(property='C23', needs='an agent without an observation function that changes the state it is asked about, in a game that catches exceptions',
                what='agents without an observation function decide on the running game\'s own state while a time limit applies',
                edits=[('demo/game.py', '''            else:
                observation = self.state.deepCopy()
''', '''            else:
                observation = self.state if self.catchExceptions else self.state.deepCopy()
''')],
                demo=PRE + '''
class Vandal(Walker):
    turns = 0
    def getAction(self, s):
        s.data.score = 12345
        self.turns += 1
        return Directions.STOP

class R(Rules):
    def process(self, s, g):
        assert s.getScore() < 1000, 'an agent changed the score'
        g.gameOver = True

g = play([Vandal(0), Walker(1), Walker(2)], rules=R(), catch=True)
'''),
    'D03': dict(property='C33', needs='a game in which the agent that starts is not the first one and an agent has crashed or a game of one agent only',
                what='after the last agent the turn passes to the agent that started, so earlier agents never move',
                edits=[('demo/game.py', "            agentIndex = ( agentIndex + 1 ) % numAgents\n",
                        "            agentIndex = agentIndex + 1 if agentIndex + 1 < numAgents else self.startingIndex\n")],
                demo=PRE + '''
moves = []
class R(Rules):
    def process(self, s, g):
        if len(g.moveHistory) >= 6 or s.isWin() or s.isLose():
            g.gameOver = True

class Stay(Agent):
    def getAction(self, s):
        return s.getLegalActions(self.index)[0] if self.index else Directions.STOP

g = Game([Stay(0), Stay(1), Stay(2)], Display(), R(), startingIndex=1)
g.state = state()
g.run()
who = [i for i, _ in g.moveHistory]
assert who == [1, 2, 0, 1, 2, 0][:len(who)] and len(who) > 3, who
'''),
    'D04': dict(property='C25', needs='a timed function that fails while another SIGALRM handler was installed before',
                what='when the timed function fails its own handler stays installed',
                edits=[('demo/util.py', '''            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
''', '''            except TimeoutFunctionException:
                signal.signal(signal.SIGALRM, old)
                raise
            finally:
                signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
''')],
                demo=PRE + '''
def mine(*a): pass
def fails(): raise ValueError('x')
signal.signal(signal.SIGALRM, mine)
try:
    util.TimeoutFunction(fails, 5)()
except ValueError:
    pass
assert signal.getsignal(signal.SIGALRM) is mine
'''),
    'D05': dict(property='C28', needs='a state whose copy eats food, the original being looked at afterwards',
                what='the food of a deep copy shares its columns with the original',
                edits=[('demo/game.py', '        state.food = self.food.deepCopy()\n', '        state.food = self.food.shallowCopy()\n'),
                       ('demo/game.py', "        g.data = self.data\n", "        g.data = list(self.data)\n")],
                demo=PRE + '''
d = state().data
e = d.deepCopy()
x, y = e.food.asList()[0]
e.food[x][y] = False
assert d.food[x][y]
'''),
    'D06': dict(property='C29', needs='two scared ghosts met one after the other, or a ghost met in the move in which its fright ends',
                what='a ghost in the last tick of its fright kills Pac-Man although it is still scared',
                edits=[('demo/pacman.py', "    def collide( state, ghostState, agentIndex):\n        if ghostState.scaredTimer > 0:\n",
                        "    def collide( state, ghostState, agentIndex):\n        if ghostState.scaredTimer > 0.5 * len(state.data.agentStates):\n")],
                demo=PRE + '''
s = state()
g = s.data.agentStates[1]
g.scaredTimer = 1
pacman.GhostRules.collide(s, g, 1)
assert not s.data._lose and s.data.scoreChange == 200
'''),
    'D07': dict(property='C22', needs='a ghost in a dead end or corridor of exactly one way besides standing still',
                what='a ghost that could go on may turn around when it is scared',
                edits=[('demo/pacman.py', "        if reverse in possibleActions and len( possibleActions ) > 1:\n",
                        "        if reverse in possibleActions and len( possibleActions ) > 1 and state.getGhostState( ghostIndex ).scaredTimer <= 0:\n")],
                demo=PRE + '''
s = state()
for gi in (1, 2):
    g = s.data.agentStates[gi]
    g.scaredTimer = 7
    for d in (Directions.EAST, Directions.WEST, Directions.NORTH, Directions.SOUTH):
        g.configuration = Configuration(g.configuration.pos, d)
        acts = s.getLegalActions(gi)
        assert len(acts) == 1 or Actions.reverseDirection(d) not in acts, (d, acts)
'''),
}
