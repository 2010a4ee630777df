"""Behaviour-preserving rewrites of the demo: nothing may report."""
G = 'demo/game.py'
P = 'demo/pacman.py'
L = 'demo/layout.py'
U = 'demo/util.py'
H = 'demo/ghostAgents.py'
K = 'demo/keyboardAgents.py'
ALL = 'C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33'
_R = []


def ok(cid, file, *edits):
    _R.append((cid, 'ok', ALL, file, list(edits)))


ok('q01', G, ("""        state = AgentState( self.start, self.isPacman )
        state.configuration = self.configuration
        state.scaredTimer = self.scaredTimer
        state.numCarrying = self.numCarrying
        state.numReturned = self.numReturned
        return state
""", """        clone = AgentState( self.start, self.isPacman )
        for name in ('configuration', 'scaredTimer', 'numCarrying', 'numReturned'):
            setattr(clone, name, getattr(self, name))
        return clone
"""))
ok('q02', G, ("        g.data = [x[:] for x in self.data]\n", "        g.data = [list(column) for column in self.data]\n"))
ok('q03', G, ("""        g.data = [x[:] for x in self.data]
        return g
""", """        columns = []
        for x in self.data:
            columns.append(x.copy())
        g.data = columns
        return g
"""))
ok('q04', G, ("        return sum([x.count(item) for x in self.data])\n", """        total = 0
        for column in self.data:
            total += column.count(item)
        return total
"""))
ok('q05', G, ("""        list = []
        for x in range(self.width):
            for y in range(self.height):
                if self[x][y] == key: list.append( (x,y) )
        return list
""", """        return [(x, y) for x in range(self.width) for y in range(self.height) if self[x][y] == key]
"""))
ok('q06', G, ("""        if action == Directions.NORTH:
            return Directions.SOUTH
        if action == Directions.SOUTH:
            return Directions.NORTH
        if action == Directions.EAST:
            return Directions.WEST
        if action == Directions.WEST:
            return Directions.EAST
        return action
""", """        return {Directions.NORTH: Directions.SOUTH, Directions.SOUTH: Directions.NORTH,
                Directions.EAST: Directions.WEST, Directions.WEST: Directions.EAST}.get(action, action)
"""))
ok('q07', G, ("""        if (abs(x - x_int) + abs(y - y_int)  > Actions.TOLERANCE):
            return [config.getDirection()]
""", """        off_grid = abs(x - x_int) + abs(y - y_int)
        if off_grid > Actions.TOLERANCE:
            return [config.getDirection()]
"""))
ok('q08', G, ("""        for dir, vec in Actions._directionsAsList:
            dx, dy = vec
            next_y = y_int + dy
            next_x = x_int + dx
            if not walls[next_x][next_y]: possible.append(dir)

        return possible
""", """        return [dir for dir, (dx, dy) in Actions._directions.items() if not walls[x_int + dx][y_int + dy]]
"""))
ok('q09', G, ("""            next_x = x_int + dx
            if next_x < 0 or next_x == walls.width: continue
            next_y = y_int + dy
            if next_y < 0 or next_y == walls.height: continue
            if not walls[next_x][next_y]: neighbors.append((next_x, next_y))
""", """            next_x, next_y = x_int + dx, y_int + dy
            if next_x < 0 or next_x == walls.width or next_y < 0 or next_y == walls.height:
                continue
            if walls[next_x][next_y]:
                continue
            neighbors.append((next_x, next_y))
"""))
ok('q10', G, ("""        copiedStates = []
        for agentState in agentStates:
            copiedStates.append( agentState.copy() )
        return copiedStates
""", """        return [agentState.copy() for agentState in agentStates]
"""))
ok('q11', G, ("""        if not self.agentStates == other.agentStates: return False
        if not self.food == other.food: return False
        if not self.capsules == other.capsules: return False
        if not self.score == other.score: return False
        return True
""", """        return (self.agentStates == other.agentStates and self.food == other.food
                and self.capsules == other.capsules and self.score == other.score)
"""))
ok('q12', G, ("""            if not isPacman:
                if numGhosts == numGhostAgents: continue # Max ghosts reached already
                else: numGhosts += 1
            self.agentStates.append( AgentState( Configuration( pos, Directions.STOP), isPacman) )
""", """            if not isPacman and numGhosts == numGhostAgents:
                continue # Max ghosts reached already
            if not isPacman:
                numGhosts += 1
            configuration = Configuration( pos, Directions.STOP)
            self.agentStates.append( AgentState( configuration, isPacman) )
"""))
ok('q13', G, ("""    def mute(self, agentIndex):
        if not self.muteAgents: return
        global OLD_STDOUT, OLD_STDERR
        import io
        OLD_STDOUT = sys.stdout
        OLD_STDERR = sys.stderr
        sys.stdout = self.agentOutput[agentIndex]
        sys.stderr = self.agentOutput[agentIndex]
""", """    def mute(self, agentIndex):
        global OLD_STDOUT, OLD_STDERR
        if self.muteAgents:
            OLD_STDOUT, OLD_STDERR = sys.stdout, sys.stderr
            sink = self.agentOutput[agentIndex]
            sys.stdout = sink
            sys.stderr = sink
"""))
ok('q14', G, ("        for i in range(len(self.agents)):\n            agent = self.agents[i]\n",
              "        for i, agent in enumerate(self.agents):\n"))
ok('q15', G, ("""            # Execute the action
            self.moveHistory.append( (agentIndex, action) )
            if self.catchExceptions:
                try:
                    self.state = self.state.generateSuccessor( agentIndex, action )
                except Exception as data:
                    self.mute(agentIndex)
                    self._agentCrash(agentIndex)
                    self.unmute()
                    return
            else:
                self.state = self.state.generateSuccessor( agentIndex, action )
""", """            # Execute the action
            self.moveHistory.append( (agentIndex, action) )
            try:
                successor = self.state.generateSuccessor( agentIndex, action )
            except Exception:
                if not self.catchExceptions:
                    raise
                self.mute(agentIndex)
                self._agentCrash(agentIndex)
                self.unmute()
                return
            self.state = successor
"""))
ok('q16', G, ("""            # Track progress
            if agentIndex == numAgents + 1: self.numMoves += 1
            # Next agent
            agentIndex = ( agentIndex + 1 ) % numAgents
""", """            # Track progress
            if agentIndex == numAgents + 1: self.numMoves += 1
            # Next agent
            agentIndex += 1
            if agentIndex >= numAgents:
                agentIndex = agentIndex % numAgents
"""))
ok('q17', G, ("""                    if self.totalAgentTimes[agentIndex] > self.rules.getMaxTotalTime(agentIndex):
                        print("Agent %d ran out of time! (time: %1.2f)" % (agentIndex, self.totalAgentTimes[agentIndex]), file=sys.stderr)
                        self.agentTimeout = True
                        self._agentCrash(agentIndex, quiet=True)
                        self.unmute()
                        return
                    self.unmute()
""", """                    spent = self.totalAgentTimes[agentIndex]
                    if spent > self.rules.getMaxTotalTime(agentIndex):
                        print("Agent %d ran out of time! (time: %1.2f)" % (agentIndex, spent), file=sys.stderr)
                        self.agentTimeout = True
                        self._agentCrash(agentIndex, quiet=True)
                        self.unmute()
                        return
                    self.unmute()
"""))
ok('q18', G, ("""        for agentIndex, agent in enumerate(self.agents):
            if "final" in dir( agent ) :
                try:
                    self.mute(agentIndex)
                    agent.final( self.state )
                    self.unmute()
                except Exception as data:
                    if not self.catchExceptions: raise data
                    self._agentCrash(agentIndex)
                    self.unmute()
                    return
        self.display.finish()
""", """        for agentIndex, agent in enumerate(self.agents):
            if not hasattr(agent, "final"):
                continue
            try:
                self.mute(agentIndex)
                agent.final( self.state )
                self.unmute()
            except Exception as data:
                if not self.catchExceptions: raise data
                self._agentCrash(agentIndex)
                self.unmute()
                return
        self.display.finish()
"""))
ok('q19', P, ("""        if self.isWin() or self.isLose(): return []

        if agentIndex == 0:  # Pacman is moving
            return PacmanRules.getLegalActions( self )
        else:
            return GhostRules.getLegalActions( self, agentIndex )
""", """        finished = self.isWin() or self.isLose()
        if finished:
            return []
        return PacmanRules.getLegalActions( self ) if agentIndex == 0 else GhostRules.getLegalActions( self, agentIndex )
"""))
ok('q20', P, ("""        return [s.getPosition() for s in self.getGhostStates()]
""", """        positions = []
        for s in self.data.agentStates[1:]:
            positions.append(s.getPosition())
        return positions
"""))
ok('q21', P, ("""        nearest = nearestPoint( next )
        if manhattanDistance( nearest, next ) <= 0.5 :
            # Remove food
            PacmanRules.consume( nearest, state )
""", """        nearest = nearestPoint( next )
        if manhattanDistance( nearest, next ) > 0.5 :
            return
        # Remove food
        PacmanRules.consume( nearest, state )
"""))
ok('q22', P, ("""            for index in range( 1, len( state.data.agentStates ) ):
                state.data.agentStates[index].scaredTimer = SCARED_TIME
""", """            for ghostState in state.data.agentStates[1:]:
                ghostState.scaredTimer = SCARED_TIME
"""))
ok('q23', P, ("""        if Directions.STOP in possibleActions:
            possibleActions.remove( Directions.STOP )
        if reverse in possibleActions and len( possibleActions ) > 1:
            possibleActions.remove( reverse )
        return possibleActions
""", """        possibleActions = [a for a in possibleActions if a != Directions.STOP]
        if len( possibleActions ) > 1 and reverse in possibleActions:
            possibleActions.remove( reverse )
        return possibleActions
"""))
ok('q24', P, ("""        speed = GhostRules.GHOST_SPEED
        if ghostState.scaredTimer > 0: speed /= 2.0
""", """        speed = GhostRules.GHOST_SPEED / 2.0 if ghostState.scaredTimer > 0 else GhostRules.GHOST_SPEED
"""))
ok('q25', P, ("""            for index in range( 1, len( state.data.agentStates ) ):
                ghostState = state.data.agentStates[index]
                ghostPosition = ghostState.configuration.getPosition()
""", """            for index, ghostState in enumerate(state.data.agentStates):
                if index == 0:
                    continue
                ghostPosition = ghostState.configuration.getPosition()
"""))
ok('q26', P, ("        ghostState.scaredTimer = max( 0, timer - 1 )\n", """        ghostState.scaredTimer = timer - 1 if timer > 1 else 0
"""))
ok('q27', P, ("""            state.data.scoreChange += 200
            GhostRules.placeGhost(state, ghostState)
            ghostState.scaredTimer = 0
""", """            ghostState.scaredTimer = 0
            GhostRules.placeGhost(state, ghostState)
            state.data.scoreChange += 200
"""))
ok('q28', P, ("""        if state.isWin(): self.win(state, game)
        if state.isLose(): self.lose(state, game)
""", """        if state.isWin():
            self.win(state, game)
        if state.isLose():
            self.lose(state, game)
        return None
"""))
ok('q29', P, ("        agents = [pacmanAgent] + ghostAgents[:layout.getNumGhosts()]\n", """        ghostCount = layout.getNumGhosts()
        agents = [pacmanAgent]
        agents.extend(ghostAgents[:ghostCount])
"""))
ok('q30', L, ("""        maxY = self.height - 1
        for y in range(self.height):
            for x in range(self.width):
                layoutChar = layoutText[maxY - y][x]
                self.processLayoutChar(x, y, layoutChar)
""", """        for y in range(self.height):
            row = layoutText[self.height - 1 - y]
            for x in range(self.width):
                self.processLayoutChar(x, y, row[x])
"""))
ok('q31', L, ("""        curdir = os.path.abspath('.')
        os.chdir('..')
        try: layout = getLayout(name, back -1)
        finally: os.chdir(curdir)
""", """        here = os.getcwd()
        os.chdir('..')
        try:
            layout = getLayout(name, back - 1)
        finally:
            os.chdir(here)
"""))
ok('q32', L, ("""    f = open(fullname)
    try: return Layout([line.strip() for line in f])
    finally: f.close()
""", """    with open(fullname) as f:
        lines = [line.strip() for line in f]
    return Layout(lines)
"""))
ok('q33', L, ("""    if name.endswith('.lay'):
        layout = tryToLoad('layouts/' + name)
        if layout == None: layout = tryToLoad(name)
    else:
        layout = tryToLoad('layouts/' + name + '.lay')
        if layout == None: layout = tryToLoad(name + '.lay')
""", """    fileName = name if name.endswith('.lay') else name + '.lay'
    layout = tryToLoad('layouts/' + fileName)
    if layout is None: layout = tryToLoad(fileName)
"""))
ok('q34', L, ("""        dist, pos = max([(manhattanDistance(p, pacPos), p) for p in poses])
        return pos
""", """        return max((manhattanDistance(p, pacPos), p) for p in poses)[1]
"""))
ok('q35', L, ("""        elif layoutChar in ['G']:
            self.agentPositions.append( (1, (x, y) ) )
            self.numGhosts += 1
""", """        elif layoutChar == 'G':
            self.numGhosts += 1
            self.agentPositions.append( (1, (x, y) ) )
"""))
ok('q36', H, ("""        for a in state.getLegalActions( self.index ): dist[a] = 1.0
        dist.normalize()
""", """        legal = state.getLegalActions( self.index )
        for a in legal:
            dist[a] = 1.0
        dist.normalize()
"""))
ok('q37', H, ("""        bestActions = [action for action, distance in zip( legalActions, distancesToPacman ) if distance == bestScore]
""", """        bestActions = []
        for action, distance in zip( legalActions, distancesToPacman ):
            if distance == bestScore:
                bestActions.append(action)
"""))
ok('q38', H, ("        if len(dist) == 0:\n            return Directions.STOP\n        else:\n            return util.chooseFromDistribution( dist )\n",
              "        if len(dist) > 0:\n            return util.chooseFromDistribution( dist )\n        return Directions.STOP\n"))
ok('q39', K, ("""        if move == Directions.STOP:
            # Try to move in the same direction as before
            if self.lastMove in legal:
                move = self.lastMove
""", """        if move == Directions.STOP and self.lastMove in legal:
            # Try to move in the same direction as before
            move = self.lastMove
"""))
ok('q40', K, ("""        if   (self.WEST_KEY in self.keys or 'Left' in self.keys) and Directions.WEST in legal:  move = Directions.WEST
        if   (self.EAST_KEY in self.keys or 'Right' in self.keys) and Directions.EAST in legal: move = Directions.EAST
        if   (self.NORTH_KEY in self.keys or 'Up' in self.keys) and Directions.NORTH in legal:   move = Directions.NORTH
        if   (self.SOUTH_KEY in self.keys or 'Down' in self.keys) and Directions.SOUTH in legal: move = Directions.SOUTH
        return move
""", """        for key, arrow, direction in ((self.WEST_KEY, 'Left', Directions.WEST), (self.EAST_KEY, 'Right', Directions.EAST),
                                      (self.NORTH_KEY, 'Up', Directions.NORTH), (self.SOUTH_KEY, 'Down', Directions.SOUTH)):
            if (key in self.keys or arrow in self.keys) and direction in legal:
                move = direction
        return move
"""))
ok('q41', U, ("        return self.list.pop()\n\n    def isEmpty(self):\n        \"Returns true if the stack is empty\"\n        return len(self.list) == 0\n",
              "        top = self.list[-1]\n        del self.list[-1]\n        return top\n\n    def isEmpty(self):\n        \"Returns true if the stack is empty\"\n        return not self.list\n"))
ok('q42', U, ("        self.list.insert(0,item)\n", "        self.list = [item] + self.list\n"))
ok('q43', U, ("    return abs( xy1[0] - xy2[0] ) + abs( xy1[1] - xy2[1] )\n", "    (x1, y1), (x2, y2) = xy1, xy2\n    return abs(x2 - x1) + abs(y2 - y1)\n"))
ok('q44', U, ("        self.setdefault(idx, 0)\n        return dict.__getitem__(self, idx)\n",
              "        if idx not in self:\n            dict.__setitem__(self, idx, 0)\n        return dict.__getitem__(self, idx)\n"))
ok('q45', U, ("        (_, _, item) = heapq.heappop(self.heap)\n        return item\n", "        return heapq.heappop(self.heap)[2]\n"))
ok('q46', P, ("""        state = GameState(self)

        # Let agent's logic deal with its action's effects on the board
        if agentIndex == 0:  # Pacman is moving
            state.data._eaten = [False for i in range(state.getNumAgents())]
            PacmanRules.applyAction( state, action )
        else:                # A ghost is moving
            GhostRules.applyAction( state, action, agentIndex )

        # Time passes
        if agentIndex == 0:
            state.data.scoreChange += -TIME_PENALTY # Penalty for waiting around
        else:
            GhostRules.decrementTimer( state.data.agentStates[agentIndex] )
""", """        state = GameState(self)

        if agentIndex == 0:  # Pacman is moving
            state.data._eaten = [False] * state.getNumAgents()
            PacmanRules.applyAction( state, action )
            state.data.scoreChange -= TIME_PENALTY # Penalty for waiting around
        else:                # A ghost is moving
            GhostRules.applyAction( state, action, agentIndex )
            GhostRules.decrementTimer( state.data.agentStates[agentIndex] )
"""))
ok('q47', P, ("        return hasattr(other, 'data') and self.data == other.data\n", "        if not hasattr(other, 'data'):\n            return False\n        return self.data == other.data\n"))
ok('q48', G, ("        if other == None: return False\n        return self.data == other.data\n", "        return other != None and self.data == other.data\n"))
ok('q50', G, ("        x = index // self.height\n        y = index % self.height\n        return x, y\n", "        return divmod(index, self.height)\n"))
ok('q51', P, ("        return float(game.state.getNumFood()) / self.initialState.getNumFood()\n", "        left = game.state.getNumFood()\n        return left / float(self.initialState.getNumFood())\n"))
CASES = _R
