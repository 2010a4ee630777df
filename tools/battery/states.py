G = 'demo/game.py'
P = 'demo/pacman.py'
GH = 'demo/ghostAgents.py'
A = 'C21 C28 C22 C29'
CASES = [
    ('s1', 'bug', A, G, [('prevState.capsules[:]', 'prevState.capsules')]),
    ('s2', 'bug', A, G, [('copiedStates.append( agentState.copy() )', 'copiedStates.append( agentState )')]),
    ('s3', 'bug', A, G, [('g.data = [x[:] for x in self.data]', 'g.data = self.data[:]')]),
    ('s4', 'bug', A, P, [('            state.data.food = state.data.food.copy()\n', '')]),
    ('s5', 'bug', A, P, [('ghostState.configuration = ghostState.start', 'ghostState.configuration.pos = ghostState.start.pos')]),
    ('s6', 'bug', A, P, [('state = GameState(self)\n\n        # Let', 'state = self if action == "Stop" else GameState(self)\n\n        # Let')]),
    ('s7', 'bug', A, P, [('            state.data.capsules.remove( position )\n', '            state.data.capsules.remove( position )\n            state.data.layout.capsules.remove(position)\n')]),
    ('s8', 'bug', A, G, [('self.agentStates = self.copyAgentStates( prevState.agentStates )', 'self.agentStates = prevState.agentStates[:]')]),
    ('s9', 'bug', A, G, [('state = AgentState( self.start, self.isPacman )', 'state = self')]),
    ('s10', 'bug', A, G, [('        state.food = self.food.deepCopy()\n', '')]),
    ('s11', 'bug', A, G, [('self._eaten = prevState._eaten[:]', 'self._eaten = prevState._eaten')]),
    ('s12', 'bug', A, P, [('        state = GameState( self )\n        state.data = self.data.deepCopy()', '        state = GameState( self )')]),
    ('s13', 'bug', A, G, [('        state.food = self.food.deepCopy()\n', '        state.food = self.food.shallowCopy()\n')]),
    ('s14', 'bug', A, GH, [("        isScared = ghostState.scaredTimer > 0\n", "        isScared = ghostState.scaredTimer > 0\n        if isScared: ghostState.scaredTimer -= 1\n")]),
    ('s15', 'bug', A, P, [('        if Directions.STOP in possibleActions:\n', '        conf.direction = reverse if len(possibleActions) == 2 else conf.direction\n        if Directions.STOP in possibleActions:\n')]),
    ('s16', 'bug', A, P, [('GhostRules.checkDeath( state, agentIndex )\n\n', 'GhostRules.checkDeath( state, agentIndex )\n        self.data.scoreChange = 0\n\n')]),
    ('s17', 'bug', A, G, [('state.configuration = self.configuration\n', 'state.configuration = self.configuration\n        self.scaredTimer = max(self.scaredTimer, 0)\n')]),
    # ok
    ('k1', 'ok', A, G, [('prevState.capsules[:]', 'list(prevState.capsules)')]),
    ('k2', 'ok', A, G, [('        copiedStates = []\n        for agentState in agentStates:\n            copiedStates.append( agentState.copy() )\n        return copiedStates', '        return [agentState.copy() for agentState in agentStates]')]),
    ('k3', 'ok', A, G, [('g.data = [x[:] for x in self.data]', 'g.data = [list(row) for row in self.data]')]),
    ('k4', 'ok', A, P, [('            state.data.food = state.data.food.copy()\n            state.data.food[x][y] = False\n', '            food = state.data.food.copy()\n            food[x][y] = False\n            state.data.food = food\n')]),
    ('k5', 'ok', A, P, [('            state.data.capsules.remove( position )\n', '            state.data.capsules = [c for c in state.data.capsules if c != position]\n')]),
    ('k6', 'ok', A, P, [('        if agentIndex == 0:  # Pacman is moving\n            state.data._eaten = [False for i in range(state.getNumAgents())]\n', '        pacmanMoves = agentIndex == 0\n        if pacmanMoves:  # Pacman is moving\n            state.data._eaten = [False] * state.getNumAgents()\n')]),
    ('k7', 'ok', A, P, [('        # Time passes\n        if agentIndex == 0:\n            state.data.scoreChange += -TIME_PENALTY # Penalty for waiting around\n        else:\n            GhostRules.decrementTimer( state.data.agentStates[agentIndex] )\n', '        self._passTime( state, agentIndex )\n'), ('    def getLegalPacmanActions( self ):', '    def _passTime( self, state, agentIndex ):\n        if agentIndex == 0:\n            state.data.scoreChange -= TIME_PENALTY\n        else:\n            GhostRules.decrementTimer( state.data.agentStates[agentIndex] )\n\n    def getLegalPacmanActions( self ):')]),
    ('k8', 'ok', A, P, [('        if Directions.STOP in possibleActions:\n            possibleActions.remove( Directions.STOP )\n        if reverse in possibleActions and len( possibleActions ) > 1:\n            possibleActions.remove( reverse )\n        return possibleActions', '        actions = [a for a in possibleActions if a != Directions.STOP]\n        if reverse in actions and len(actions) > 1:\n            actions = [a for a in actions if a != reverse]\n        return actions')]),
    ('k9', 'ok', A, P, [('            for index in range( 1, len( state.data.agentStates ) ):\n                state.data.agentStates[index].scaredTimer = SCARED_TIME', '            for ghost in state.data.agentStates[1:]:\n                ghost.scaredTimer = SCARED_TIME')]),
    ('k10', 'ok', A, P, [('            for index in range( 1, len( state.data.agentStates ) ):\n                ghostState = state.data.agentStates[index]\n', '            for index, ghostState in enumerate(state.data.agentStates):\n                if index == 0: continue\n')]),
    ('k11', 'ok', A, P, [('            if not state.data._win:\n                state.data.scoreChange -= 500\n                state.data._lose = True\n', '            if state.data._win: return\n            state.data.scoreChange -= 500\n            state.data._lose = True\n')]),
    ('k12', 'ok', A, P, [('        timer = ghostState.scaredTimer\n        if timer == 1:\n            ghostState.configuration.pos = nearestPoint( ghostState.configuration.pos )\n        ghostState.scaredTimer = max( 0, timer - 1 )', '        if ghostState.scaredTimer == 1:\n            ghostState.configuration.pos = nearestPoint( ghostState.configuration.pos )\n        ghostState.scaredTimer = ghostState.scaredTimer - 1 if ghostState.scaredTimer > 1 else 0')]),
    ('k13', 'ok', A, P, [('        speed = GhostRules.GHOST_SPEED\n        if ghostState.scaredTimer > 0: speed /= 2.0\n', '        speed = GhostRules.GHOST_SPEED / 2.0 if ghostState.scaredTimer > 0 else GhostRules.GHOST_SPEED\n')]),
    ('k14', 'ok', A, P, [('        if self.isWin() or self.isLose(): return []\n', '        if self.data._win or self.data._lose:\n            return []\n')]),
]
