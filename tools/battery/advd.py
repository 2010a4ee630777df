"""Planted bugs in the demo game, written from the statements."""
G = 'demo/game.py'
P = 'demo/pacman.py'
L = 'demo/layout.py'
U = 'demo/util.py'
K = 'demo/keyboardAgents.py'
H = 'demo/ghostAgents.py'
CASES = []


def b(pr, f, *e):
    CASES.append((f'y{len(CASES) + 1:02}', 'bug', pr, f, list(e)))


b('C21', P, ("        if Directions.STOP in possibleActions:\n", "        state.data._lastAsked = ghostIndex\n        if Directions.STOP in possibleActions:\n"))
b('C21', P, ("        return self.data.agentStates[0].copy()", "        return self.data.agentStates[0]"), ("        pacmanState = state.data.agentStates[0]\n", "        pacmanState = state.getPacmanState()\n        pacmanState.lastAction = action\n"))
b('C21 C28', P, ("            state.data.food = state.data.food.copy()\n", ""))
b('C21', P, ("            ghostState.configuration.pos = nearestPoint", "            ghostState.start.pos = nearestPoint"))
b('C21', P, ("        ghostState.configuration = ghostState.configuration.generateSuccessor( vector )", "        ghostState.configuration.pos = ghostState.configuration.generateSuccessor( vector ).pos"))
b('C21 C28', G, ("            self.capsules = prevState.capsules[:]", "            self.capsules = prevState.capsules"))
b('C21 C28', G, ("            self._eaten = prevState._eaten[:]", "            self._eaten = prevState._eaten"), )
b('C21', H, ("        # Read variables from state\n", "        # Read variables from state\n        state.getGhostState( self.index ).numCarrying += 1\n"))
b('C22', P, ("        if self.isWin() or self.isLose(): return []", "        if self.isLose() and self.isWin(): return []"))
b('C22', P, ("        if self.isWin() or self.isLose(): raise", "        if self.isLose(): raise"))
b('C22', P, ("        if reverse in possibleActions and len( possibleActions ) > 1:", "        if reverse in possibleActions and len( possibleActions ) > 2:"))
b('C22', P, ("        if ghostState.scaredTimer > 0: speed /= 2.0", "        if ghostState.scaredTimer > 1: speed /= 2.0"))
b('C22', P, ("        if action not in legal:\n            raise Exception(\"Illegal ghost", "        if action not in legal and action != Directions.STOP:\n            raise Exception(\"Illegal ghost"))
b('C22', P, ("        if Directions.STOP in possibleActions:\n            possibleActions.remove( Directions.STOP )\n        if reverse in possibleActions and len( possibleActions ) > 1:\n            possibleActions.remove( reverse )", "        if reverse in possibleActions and len( possibleActions ) > 1:\n            possibleActions.remove( reverse )\n        if Directions.STOP in possibleActions:\n            possibleActions.remove( Directions.STOP )"))
b('C23', G, ("                observation = self.state.deepCopy()\n", "                observation = self.state if agentIndex else self.state.deepCopy()\n"))
b('C23', G, ("                agent.final( self.state )", "                agent.final( self.state )\n                agent.last = self.state"), ("        self.display.finish()", "        for a in self.agents: getattr(a, 'reset', lambda s: None)(self.state)\n        self.display.finish()"))
b('C23', G, ("        for i in range(len(self.agents)):\n            agent = self.agents[i]\n", "        start = self.state.deepCopy()\n        for i in range(len(self.agents)):\n            agent = self.agents[i]\n"), ("timed_func(self.state.deepCopy())\n                            time", "timed_func(start)\n                            time"))
b('C23', G, ("                    observation = agent.observationFunction(self.state.deepCopy())", "                    observation = agent.observationFunction(self.state.deepCopy()) or self.state"))
b('C24', G, ("                    except Exception as data:\n                        self._agentCrash(i, quiet=False)\n                        self.unmute()\n", "                    except Exception as data:\n                        self._agentCrash(i, quiet=False)\n"))
b('C24', G, ("        sys.stdout = OLD_STDOUT\n        sys.stderr = OLD_STDERR", "        sys.stdout = OLD_STDOUT or sys.__stdout__\n        sys.stderr = OLD_STDOUT"))
b('C24', G, ("        sys.stderr = self.agentOutput[agentIndex]\n", ""))
b('C24', G, ("                except Exception as data:\n                    self._agentCrash(agentIndex)\n                    self.unmute()\n                    return\n            else:\n                action", "                except Exception as data:\n                    self._agentCrash(agentIndex)\n                    if not self.agentTimeout: self.unmute()\n                    return\n            else:\n                action"))
b('C25', U, ("            try:\n                result = self.function(*args, **keyArgs)\n            finally:\n                signal.alarm(0)\n                signal.signal(signal.SIGALRM, old)", "            try:\n                result = self.function(*args, **keyArgs)\n            except TimeoutFunctionException:\n                signal.signal(signal.SIGALRM, old)\n                raise\n            finally:\n                signal.alarm(0)\n            signal.signal(signal.SIGALRM, old)"))
b('C25', U, ("            signal.alarm(self.timeout)\n", "            signal.alarm(max(self.timeout, 1))\n"))
b('C25', U, ("                result = self.function(*args, **keyArgs)\n            finally", "                result = self.function(*args)\n            finally"))
b('C25', U, ("                signal.alarm(0)\n                signal.signal(signal.SIGALRM, old)", "                signal.signal(signal.SIGALRM, old)\n                if signal.getsignal(signal.SIGALRM) is not old: signal.alarm(0)"))
b('C26', L, ("        finally: os.chdir(curdir)", "        finally:\n            if layout is None or back > 0: os.chdir(curdir)"))
b('C26', L, ("    try: return Layout([line.strip() for line in f])\n    finally: f.close()", "    lines = [line.strip() for line in f]\n    f.close()\n    return Layout(lines) if lines else None"))
b('C26', L, ("        elif layoutChar in  ['1', '2', '3', '4']:", "        elif layoutChar in  ['1', '2', '3']:"))
b('C26', L, ("                layoutChar = layoutText[maxY - y][x]", "                layoutChar = layoutText[y if maxY > 40 else maxY - y][x]"))
b('C27', G, ("        if dx < 0:\n            return Directions.WEST", "        if dx <= -1:\n            return Directions.WEST"))
b('C27', G, ("        return (dx * speed, dy * speed)", "        return (dx * speed, dy * speed) if speed >= 1 else (dx * speed, int(dy * speed))"))
b('C27', G, ("next_y == walls.height: continue", "next_y > walls.height: continue"))
b('C27', G, ("            direction = self.direction # There is no stop direction", "            pass"))
b('C27', G, ("        if (abs(x - x_int) + abs(y - y_int)  > Actions.TOLERANCE):", "        if (abs(x - x_int) > Actions.TOLERANCE):"))
b('C27', G, ("        if dy > 0:\n            return Directions.NORTH", "        if dy > abs(dx):\n            return Directions.NORTH"))
b('C28', G, ("        state.scaredTimer = self.scaredTimer\n", "        state.scaredTimer = self.scaredTimer if not self.isPacman else 0\n"))
b('C28', G, ("        state.numReturned = self.numReturned\n", ""))
b('C28', G, ("        state._agentMoved = self._agentMoved\n", ""))
b('C28', G, ("        g.data = [x[:] for x in self.data]\n", "        g.data = self.data[:]\n"))
b('C28', G, ("        state = AgentState( self.start, self.isPacman )\n", "        state = AgentState( self.configuration, self.isPacman )\n"))
b('C28', G, ("                if numGhosts == numGhostAgents: continue # Max", "                if numGhosts > numGhostAgents: continue # Max"))
b('C28', G, ("        self.data = [[initialValue for y in range(height)] for x in range(width)]", "        self.data = [[initialValue] * height] * width if not initialValue else [[initialValue for y in range(height)] for x in range(width)]"))
b('C28', G, ("            bit = self.CELLS_PER_INT - (i % self.CELLS_PER_INT) - 1\n            x, y", "            bit = i % self.CELLS_PER_INT\n            x, y"))
b('C28', L, ("        return Layout(self.layoutText[:])", "        return Layout([l for l in self.layoutText if l])"))
b('C29', P, ("            if numFood == 0 and not state.data._lose:", "            if numFood <= 1 and state.getNumFood() == 0 and not state.data._lose and not state.getCapsules():"))
b('C29', P, ("            for index in range( 1, len( state.data.agentStates ) ):\n                state.data.agentStates[index].scaredTimer", "            for index in range( 1, len( state.data.agentStates ) ):\n                if not state.data._eaten[index]: state.data.agentStates[index].scaredTimer"))
b('C29', P, ("            for index in range( 1, len( state.data.agentStates ) ):\n                state.data.agentStates[index].scaredTimer = SCARED_TIME", "            for index in range( 1, len( state.data.agentStates ) ):\n                state.data.agentStates[index].scaredTimer += SCARED_TIME"))
b('C29', P, ("        ghostState.scaredTimer = max( 0, timer - 1 )", "        ghostState.scaredTimer = timer - 1 if timer else timer"), ("    def decrementTimer( ghostState):\n", "    def decrementTimer( ghostState):\n        if ghostState.numReturned: return\n"))
b('C29', P, ("            ghostState.scaredTimer = 0\n", ""))
b('C29', P, ("                    GhostRules.collide( state, ghostState, index )\n", "                    GhostRules.collide( state, ghostState, index )\n                    break\n"))
b('C29', P, ("            if not state.data._win:\n", "            if not state.data._win and not state.data._lose:\n"))
b('C29', P, ("<= COLLISION_TOLERANCE", "< COLLISION_TOLERANCE"))
b('C29', P, ("        ghostState.configuration = ghostState.start\n", "        ghostState.configuration.pos = ghostState.start.pos\n"))
b('C29', P, ("        state.data.score += state.data.scoreChange\n", "        if not state.data._lose: state.data.score += state.data.scoreChange\n        else: state.data.score += min(0, state.data.scoreChange)\n"))
b('C30', G, ("        return self.configuration == other.configuration and self.scaredTimer == other.scaredTimer", "        return self.configuration == other.configuration and bool(self.scaredTimer) == bool(other.scaredTimer)"))
b('C30', G, ("        if not self.capsules == other.capsules: return False", "        if not len(self.capsules) == len(other.capsules): return False"))
b('C30', G, ("        return self.data == other.data\n\n    def __hash__(self):\n        #", "        return hash(self) == hash(other)\n\n    def __hash__(self):\n        #"))
b('C30', G, ("        if not self.score == other.score: return False\n", ""))
b('C30', P, ("        return hasattr(other, 'data') and self.data == other.data", "        return hasattr(other, 'data') and hash(self.data) == hash(other.data)"))
b('C30', G, ("        return (self.pos == other.pos and self.direction == other.direction)", "        return (self.pos == other.pos and (self.direction == other.direction or Directions.STOP in (self.direction, other.direction)))"))
b('C31', U, ("    if( x >= 0 ):", "    if( x > 0 ):"))
b('C31', U, ("    grid_row = int( current_row + 0.5 )", "    grid_row = round( current_row )"))
b('C31', U, ("        self.list.insert(0,item)", "        self.list.insert(0 if len(self.list) < 100 else 1,item)"))
b('C31', U, ("abs( xy1[0] - xy2[0] ) + abs( xy1[1] - xy2[1] )", "abs( xy1[0] - xy2[0] + xy1[1] - xy2[1] )"))
b('C32', K, ("(self.WEST_KEY in self.keys or 'Left' in self.keys) and Directions.WEST in legal", "(self.WEST_KEY in self.keys or 'Left' in self.keys and Directions.WEST in legal)"))
b('C32', K, ("        if   (self.SOUTH_KEY in self.keys) and Directions.SOUTH in legal: move", "        if   (self.SOUTH_KEY in self.keys) and (Directions.SOUTH in legal or move == Directions.STOP): move"))
b('C32', K, ("        if (self.STOP_KEY in self.keys) and Directions.STOP in legal: move", "        if (self.STOP_KEY in self.keys): move"), ("        if move not in legal:\n            move = random.choice(legal)\n", "        if move not in legal and move != Directions.STOP:\n            move = random.choice(legal)\n"))
b('C33', G, ("            agentIndex = ( agentIndex + 1 ) % numAgents", "            agentIndex = ( agentIndex + 1 ) % len([a for a in self.agents if a])  if not self.agentTimeout else agentIndex"))
b('C33', G, ("            self.moveHistory.append( (agentIndex, action) )\n", "            if action != Directions.STOP: self.moveHistory.append( (agentIndex, action) )\n"))
b('C33', G, ("            else:\n                self.state = self.state.generateSuccessor( agentIndex, action )", "            else:\n                self.state = observation.generateSuccessor( agentIndex, action )"))
b('C33', G, ("            self.rules.process(self.state, self)\n", "            if agentIndex == numAgents - 1 or self.state.isLose(): self.rules.process(self.state, self)\n"))
