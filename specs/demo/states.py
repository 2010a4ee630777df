"""Pac-Man demo: copying and comparing states."""


class agent_copy:
    """C28: a copied agent state has every field of the original"""
    target = 'AgentState.copy'

    def code(s: AgentState):
        c = s.copy()
        return (c.start, c.configuration, c.isPacman, c.scaredTimer, c.numCarrying, c.numReturned)

    def spec(s: AgentState):
        return (s.start, s.configuration, s.isPacman, s.scaredTimer, s.numCarrying, s.numReturned)


class grid_copy:
    """C28: a copied grid has the size and the cells of the original"""
    target = 'Grid.copy'

    def code(g: Grid):
        c = g.copy()
        d = g.deepCopy()
        e = g.shallowCopy()
        return (c.width, c.height, c.data, d.width, d.height, d.data, e.width, e.height, e.data)

    def spec(g: Grid):
        return (g.width, g.height, g.data, g.width, g.height, g.data, g.width, g.height, g.data)


class grid_queries:
    """C28: counting and listing the cells of a grid"""
    target = 'Grid.asList'

    def code(g: Grid):
        return (g.asList(), g.count(), g.count(False), g.asList(False))

    def spec(g: Grid):
        return ([(x, y) for x in range(g.width) for y in range(g.height) if g.data[x][y] == True],
                sum([c.count(True) for c in g.data]), sum([c.count(False) for c in g.data]),
                [(x, y) for x in range(g.width) for y in range(g.height) if g.data[x][y] == False])


class data_copy:
    """C28: the data a successor starts from: everything carried over, nothing eaten or decided yet"""
    target = 'GameStateData.__init__'

    def code(d: GameStateData):
        c = GameStateData(d)
        return (c.food.data, c.capsules, c.layout, c._eaten, c.score, c._foodEaten, c._foodAdded, c._capsuleEaten,
                c._agentMoved, c._lose, c._win, c.scoreChange)

    def spec(d: GameStateData):
        return (d.food.data, d.capsules, d.layout, d._eaten, d.score, None, None, None, None, False, False, 0)


class data_deep_copy:
    """C28: a deep copy carries what was eaten and who moved"""
    target = 'GameStateData.deepCopy'

    def code(d: GameStateData):
        c = d.deepCopy()
        return (c.food.data, c.capsules, c._eaten, c.score, c._foodEaten, c._foodAdded, c._capsuleEaten, c._agentMoved)

    def spec(d: GameStateData):
        return (d.food.data, d.capsules, d._eaten, d.score, d._foodEaten, d._foodAdded, d._capsuleEaten, d._agentMoved)


class configuration_equality:
    """C30: configurations are equal exactly when position and direction are"""
    target = 'Configuration.__eq__'

    def code(a: Configuration, b: Configuration):
        return a.__eq__(b)

    def spec(a: Configuration, b: Configuration):
        return a.pos == b.pos and a.direction == b.direction


class agent_equality:
    """C30: agent states are equal exactly when configuration and scared timer are"""
    target = 'AgentState.__eq__'

    def code(a: AgentState, b: AgentState):
        return a.__eq__(b)

    def spec(a: AgentState, b: AgentState):
        return a.configuration == b.configuration and a.scaredTimer == b.scaredTimer


class data_equality:
    """C30: game states are equal exactly when agents, food, capsules and score are"""
    target = 'GameStateData.__eq__'

    def code(a: GameStateData, b: GameStateData):
        return a.__eq__(b)

    def spec(a: GameStateData, b: GameStateData):
        return a.agentStates == b.agentStates and a.food == b.food and a.capsules == b.capsules and a.score == b.score


class state_equality:
    """C30: game states are equal exactly when their data is"""
    target = 'GameState.__eq__'

    def code(a: GameState, b: GameState):
        return a.__eq__(b)

    def spec(a: GameState, b: GameState):
        return a.data == b.data

    def spec_2(a: GameState, b: GameState):
        return a.data.agentStates == b.data.agentStates and a.data.food == b.data.food and \
            a.data.capsules == b.data.capsules and a.data.score == b.data.score


class data_initialize:
    """C28: a new game has the food, capsules and agents of its layout, at most the given number of ghosts, and no score"""
    target = 'GameStateData.initialize'

    def code(d: GameStateData, l: Layout, n: int):
        d.initialize(l, n)

    def spec(d: GameStateData, l: Layout, n: int):
        g = Grid(l.food.width, l.food.height)
        g.data = [c[:] for c in l.food.data]
        d.food = g
        d.capsules = l.capsules[:]
        d.layout = l
        d.score = 0
        d.scoreChange = 0
        d.agentStates = []
        k = 0
        for p, pos in l.agentPositions:
            if not p:
                if k == n:
                    continue
                else:
                    k += 1
            d.agentStates.append(AgentState(Configuration(pos, 'Stop'), p))
        d._eaten = [False for a in d.agentStates]


class agent_reading:
    """C28: an agent state answers with its configuration"""
    target = 'AgentState.getPosition'

    def code(a: AgentState):
        return (a.getPosition(), a.getDirection(), a.configuration.isInteger())

    def spec(a: AgentState):
        x, y = a.configuration.pos
        return (a.configuration.pos, a.configuration.direction, x == int(x) and y == int(y))


class new_agent:
    """C28: a new agent stands at its start, unscared"""
    target = 'AgentState.__init__'

    def code(c: Configuration, p: bool):
        a = AgentState(c, p)
        return (a.start, a.configuration, a.isPacman, a.scaredTimer, a.numCarrying, a.numReturned)

    def spec(c: Configuration, p: bool):
        return (c, c, p, 0, 0, 0)


class new_grid:
    """C28: a new grid has the given size and holds the initial value everywhere"""
    target = 'Grid.__init__'

    def code(w: int, h: int):
        g = Grid(w, h)
        k = Grid(w, h, True)
        return (g.width, g.height, g.data, k.data)

    def spec(w: int, h: int):
        return (w, h, [[False for y in range(h)] for x in range(w)], [[True for y in range(h)] for x in range(w)])


class grid_cell:
    """C28: a cell written is the cell read, and no other cell changes"""
    target = 'Grid.__setitem__'

    def code(g: Grid, x: int, y: int, v: bool, a: int, b: int):
        g[x][y] = v
        return (g[x][y], g[a][b])

    def spec(g: Grid, x: int, y: int, v: bool, a: int, b: int):
        old = g.data[a][b]
        g.data[x][y] = v
        return (v, v if a == x and b == y else old)


class grid_equality:
    """C30: grids are equal exactly when their cells are"""
    target = 'Grid.__eq__'

    def code(a: Grid, b: Grid):
        return a.__eq__(b)

    def spec(a: Grid, b: Grid):
        return a.data == b.data


class grid_cell_index:
    """C28: the cells of a grid are numbered column by column"""
    target = 'Grid._cellIndexToPosition'
    effects = 'ignore'

    def code(g: Grid, i: int):
        return g._cellIndexToPosition(i)

    def spec(g: Grid, i: int):
        return (i // g.height, i % g.height)


class grid_packed:
    """C28: a packed grid lists its width, its height and its cells as bits, the first cell highest"""
    target = 'Grid.packBits'

    def code(a: bool, b: bool, c: bool, d: bool, e: bool, f: bool):
        g = Grid(2, 3)
        g.data = [[a, b, c], [d, e, f]]
        return g.packBits()

    def spec(a: bool, b: bool, c: bool, d: bool, e: bool, f: bool):
        n = 0
        if a:
            n = n + 536870912
        if b:
            n = n + 268435456
        if c:
            n = n + 134217728
        if d:
            n = n + 67108864
        if e:
            n = n + 33554432
        if f:
            n = n + 16777216
        return (2, 3, n)


class grid_unpacked:
    """C28: a grid rebuilt from its packed form has the same cells"""
    target = 'reconstituteGrid'
    longest = 40

    def code(a: bool, b: bool, c: bool, d: bool, e: bool, f: bool):
        g = Grid(2, 3)
        g.data = [[a, b, c], [d, e, f]]
        h = reconstituteGrid(g.packBits())
        return (h.width, h.height, h.data)

    def spec(a: bool, b: bool, c: bool, d: bool, e: bool, f: bool):
        return (2, 3, [[True if a else False, True if b else False, True if c else False],
                       [True if d else False, True if e else False, True if f else False]])


class grid_packed_long:
    """C28: the thirty-first cell of a packed grid starts a second number"""
    target = 'Grid.packBits'
    longest = 40

    def code(a: bool, b: bool):
        g = Grid(1, 31)
        g.data[0][29] = a
        g.data[0][30] = b
        return g.packBits()

    def spec(a: bool, b: bool):
        return (1, 31, 1 if a else 0, 536870912 if b else 0)


class grid_unpacked_long:
    """C28: a grid of more than thirty cells is rebuilt from its packed form"""
    target = 'reconstituteGrid'
    longest = 40

    def code(a: bool, b: bool):
        g = Grid(1, 31)
        g.data[0][29] = a
        g.data[0][30] = b
        h = reconstituteGrid(g.packBits())
        return (h.width, h.height, h.data[0][0], h.data[0][28], h.data[0][29], h.data[0][30])

    def spec(a: bool, b: bool):
        return (1, 31, False, False, True if a else False, True if b else False)


class layout_text_cells:
    """C26: every character of a layout text lands in the cell below it, the last line at the bottom"""
    target = 'Layout.processLayoutText'
    effects = 'ignore'

    def code(a: bool, b: bool, c: bool, d: bool, e: bool, f: bool):
        l = Layout([['%' if a else '.', '%' if b else 'o'], ['.' if c else '%', '%' if d else '.'],
                    ['%' if e else ' ', '%' if f else '.']])
        return (l.width, l.height, l.walls.data, l.food.data, l.capsules, l.agentPositions, l.numGhosts)

    def spec(a: bool, b: bool, c: bool, d: bool, e: bool, f: bool):
        return (2, 3, [[True if e else False, False if c else True, True if a else False],
                       [True if f else False, True if d else False, True if b else False]],
                [[False, True if c else False, False if a else True],
                 [False if f else True, False if d else True, False]],
                [] if b else [(1, 2)], [], 0)


class layout_text_agents:
    """C26: Pac-Man comes first among the agents of a layout, the ghosts follow in the order of their marks"""
    target = 'Layout.processLayoutText'
    effects = 'ignore'

    def code(a: bool, b: bool):
        l = Layout([['2', 'G' if a else '3'], ['P' if b else '1', '%'], [' ', '.']])
        return (l.agentPositions, l.numGhosts, l.totalFood)

    def spec(a: bool, b: bool):
        x = (True, (0, 1)) if b else (False, (0, 1))
        n = 2 if b else 3
        if a:
            return ([x, (False, (1, 2)), (False, (0, 2))], n, 1)
        return ([x, (False, (0, 2)), (False, (1, 2))], n, 1)


class layout_copied:
    """C28: a copied layout is made from the same text"""
    target = 'Layout.deepCopy'
    effects = 'ignore'

    def code(a: bool, b: bool):
        l = Layout([['%' if a else 'o', '%'], ['.' if b else '%', '%']]).deepCopy()
        return (l.width, l.height, l.walls.data, l.food.data, l.capsules, l.numGhosts, l.totalFood)

    def spec(a: bool, b: bool):
        return (2, 2, [[False if b else True, True if a else False], [True, True]],
                [[True if b else False, False], [False, False]], [] if a else [(0, 1)], 0, 1 if b else 0)
