"""Pac-Man demo: the rules of the game."""


class decrement_timer:
    """C29: a scared timer goes down by one to zero, and snaps the ghost to its cell when it runs out"""
    target = 'GhostRules.decrementTimer'

    def code(g: AgentState):
        GhostRules.decrementTimer(g)

    def spec(g: AgentState):
        if g.scaredTimer == 1:
            g.configuration.pos = (int(g.configuration.pos[0] + 0.5), int(g.configuration.pos[1] + 0.5))
        g.scaredTimer = max(0, g.scaredTimer - 1)


class can_kill:
    """C29: a ghost catches Pac-Man within 0.7 Manhattan distance"""
    target = 'GhostRules.canKill'

    def code(x: float, y: float, a: float, b: float):
        return GhostRules.canKill((x, y), (a, b))

    def spec(x: float, y: float, a: float, b: float):
        return abs(a - x) + abs(b - y) <= 0.7


class collide:
    """C29: meeting a scared ghost scores 200 and sends it home; meeting another one loses 500 and the game, unless won"""
    target = 'GhostRules.collide'

    def code(s: GameState, g: AgentState, i: int):
        GhostRules.collide(s, g, i)

    def spec(s: GameState, g: AgentState, i: int):
        if g.scaredTimer > 0:
            s.data.scoreChange = s.data.scoreChange + 200
            g.configuration = g.start
            g.scaredTimer = 0
            s.data._eaten[i] = True
        elif not s.data._win:
            s.data.scoreChange = s.data.scoreChange - 500
            s.data._lose = True


class terminal_legal:
    """C22: a finished game has no legal actions"""
    target = 'GameState.getLegalActions'
    abstract = {'PacmanRules.getLegalActions': 'List[str]', 'GhostRules.getLegalActions': 'List[str]'}

    def code(s: GameState, i: int):
        return s.getLegalActions(i)

    def spec(s: GameState, i: int):
        if s.data._win or s.data._lose:
            return []
        if i == 0:
            return PacmanRules.getLegalActions(s)
        return GhostRules.getLegalActions(s, i)


class pacman_legal:
    """C22: Pac-Man may take every possible action"""
    target = 'PacmanRules.getLegalActions'
    abstract = {'Actions.getPossibleActions': 'List[str]'}

    def code(s: GameState):
        return PacmanRules.getLegalActions(s)

    def spec(s: GameState):
        return Actions.getPossibleActions(s.data.agentStates[0].configuration, s.data.layout.walls)


class ghost_legal:
    """C22: ghosts may not stop, and may turn around only where there is no other way"""
    target = 'GhostRules.getLegalActions'
    abstract = {'Actions.getPossibleActions': 'List[str]'}

    def code(s: GameState, i: int):
        return GhostRules.getLegalActions(s, i)

    def spec(s: GameState, i: int):
        if i == 0 or i >= len(s.data.agentStates):
            raise Exception('not a ghost')
        c = s.data.agentStates[i].configuration
        acts = Actions.getPossibleActions(c, s.data.layout.walls)
        back = Actions.reverseDirection(c.direction)
        if 'Stop' in acts:
            acts.remove('Stop')
        if back in acts and len(acts) > 1:
            acts.remove(back)
        return acts


class consume:
    """C29: food eaten scores 10 and leaves its cell, the last one wins with 500 more; a capsule scares every ghost for 40 moves"""
    target = 'PacmanRules.consume'

    def code(s: GameState, x: int, y: int):
        PacmanRules.consume((x, y), s)

    def spec(s: GameState, x: int, y: int):
        if s.data.food.data[x][y]:
            s.data.scoreChange = s.data.scoreChange + 10
            g = Grid(s.data.food.width, s.data.food.height)
            g.data = [c[:] for c in s.data.food.data]
            g.data[x][y] = False
            s.data.food = g
            s.data._foodEaten = (x, y)
            if sum([c.count(True) for c in g.data]) == 0 and not s.data._lose:
                s.data.scoreChange = s.data.scoreChange + 500
                s.data._win = True
        if (x, y) in s.data.capsules:
            s.data.capsules.remove((x, y))
            s.data._capsuleEaten = (x, y)
            for i in range(1, len(s.data.agentStates)):
                s.data.agentStates[i].scaredTimer = 40


class ghost_apply:
    """C22: an illegal ghost action is refused; a legal one moves the ghost, at half speed when scared"""
    target = 'GhostRules.applyAction'
    abstract = {'GhostRules.getLegalActions': 'List[str]', 'Actions.directionToVector': 'Tuple[float, float]', 'Configuration.generateSuccessor': 'Configuration'}

    def code(s: GameState, a: str, i: int):
        GhostRules.applyAction(s, a, i)

    def spec(s: GameState, a: str, i: int):
        if a not in GhostRules.getLegalActions(s, i):
            raise Exception('illegal')
        g = s.data.agentStates[i]
        v = Actions.directionToVector(a, 0.5 if g.scaredTimer > 0 else 1.0)
        g.configuration = g.configuration.generateSuccessor(v)


class pacman_apply:
    """C22: an illegal action of Pac-Man is refused; a legal one moves him by one step and lets him eat what is there"""
    target = 'PacmanRules.applyAction'
    abstract = {'PacmanRules.getLegalActions': 'List[str]', 'Actions.directionToVector': 'Tuple[float, float]', 'Configuration.generateSuccessor': 'Configuration'}

    def code(s: GameState, a: str):
        PacmanRules.applyAction(s, a)

    def spec(s: GameState, a: str):
        if a not in PacmanRules.getLegalActions(s):
            raise Exception('illegal')
        p = s.data.agentStates[0]
        p.configuration = p.configuration.generateSuccessor(Actions.directionToVector(a, 1))
        x, y = p.configuration.pos
        i, j = int(x + 0.5), int(y + 0.5)
        if abs(i - x) + abs(j - y) <= 0.5:
            PacmanRules.consume((i, j), s)


class check_death:
    """C29: after Pac-Man moved every ghost can meet him, after a ghost moved only that ghost"""
    target = 'GhostRules.checkDeath'

    def code(s: GameState, i: int):
        GhostRules.checkDeath(s, i)

    def spec(s: GameState, i: int):
        p = s.data.agentStates[0].configuration.pos
        if i == 0:
            for k in range(1, len(s.data.agentStates)):
                g = s.data.agentStates[k]
                if GhostRules.canKill(p, g.configuration.pos):
                    GhostRules.collide(s, g, k)
        else:
            g = s.data.agentStates[i]
            if GhostRules.canKill(p, g.configuration.pos):
                GhostRules.collide(s, g, i)


class successor:
    """C22, C29: a finished game has no successor; otherwise the agent acts on a copy, time passes, deaths are resolved and the change of score is booked"""
    target = 'GameState.generateSuccessor'
    abstract = {'PacmanRules.applyAction': 'Any', 'GhostRules.applyAction': 'Any', 'GhostRules.decrementTimer': 'Any',
                'GhostRules.checkDeath': 'Any'}
    effects = {'PacmanRules.applyAction': [0], 'GhostRules.applyAction': [0], 'GhostRules.decrementTimer': [0],
               'GhostRules.checkDeath': [0]}

    def code(s: GameState, i: int, a: str):
        t = s.generateSuccessor(i, a)
        return (t.data.score, t.data.scoreChange, t.data._agentMoved, t.data.food, t.data.capsules, t.data._win,
                t.data._lose, t.data.agentStates, t.data._eaten)

    def spec(s: GameState, i: int, a: str):
        if s.data._win or s.data._lose:
            raise Exception('over')
        t = GameState(s)
        if i == 0:
            t.data._eaten = [False for k in range(len(s.data.agentStates))]
            PacmanRules.applyAction(t, a)
            t.data.scoreChange = t.data.scoreChange - 1
        else:
            GhostRules.applyAction(t, a, i)
            GhostRules.decrementTimer(t.data.agentStates[i])
        GhostRules.checkDeath(t, i)
        t.data._agentMoved = i
        t.data.score = t.data.score + t.data.scoreChange
        return (t.data.score, t.data.scoreChange, t.data._agentMoved, t.data.food, t.data.capsules, t.data._win,
                t.data._lose, t.data.agentStates, t.data._eaten)


class queries:
    """C28: queries read the state they are asked about"""
    target = 'GameState.getScore'

    def code(s: GameState, x: int, y: int):
        return (s.isWin(), s.isLose(), s.getScore(), s.getCapsules(), s.getNumAgents(), s.hasFood(x, y), s.hasWall(x, y),
                s.getPacmanPosition(), s.getNumFood())

    def spec(s: GameState, x: int, y: int):
        d = s.data
        return (d._win, d._lose, d.score, d.capsules, len(d.agentStates), d.food.data[x][y], d.layout.walls.data[x][y],
                d.agentStates[0].configuration.pos, sum([c.count(True) for c in d.food.data]))
