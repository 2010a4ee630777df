"""Further planted breakages of the demo, and of the network code."""
G = 'demo/game.py'
P = 'demo/pacman.py'
L = 'demo/layout.py'
U = 'demo/util.py'
H = 'demo/ghostAgents.py'
K = 'demo/keyboardAgents.py'
_R = []


def bug(cid, props, file, *edits):
    _R.append((cid, 'bug', props, file, list(edits)))


bug('z01', 'C30', G, ("113* hash(tuple(self.capsules)) + 7 * hash(self.score)) % 1048575 )", "113* hash(tuple(self.capsules)) + 7 * hash(self.score) + hash(self.scoreChange)) % 1048575 )"))
bug('z02', 'C30', G, ("113* hash(tuple(self.capsules))", "113* hash(str(self.layout))"))
bug('z03', 'C30', G, ("        for l in self.data:\n            for i in l:\n                if i:\n                    h += base\n                base *= 2\n        return hash(h)", "        for l in self.data:\n            for i in l:\n                if i:\n                    h += base\n                base *= 2\n        return hash((h, id(self.data)))"))
bug('z04', 'C30', G, ("        return hash(hash(self.configuration) + 13 * hash(self.scaredTimer))", "        return hash(hash(self.configuration) + 13 * hash(self.scaredTimer) + self.numCarrying)"))
bug('z05', 'C30', P, ("        return hasattr(other, 'data') and self.data == other.data", "        return hasattr(other, 'data') and (self.data is other.data or self.data.agentStates == other.data.agentStates and self.data.score == other.data.score)"))
bug('z06', 'C28', G, ("                currentInt = 0\n        bits.append(currentInt)", "                currentInt = 0\n        if currentInt:\n            bits.append(currentInt)"))
bug('z07', 'C28', G, ("    def deepCopy(self):\n        return self.copy()", "    def deepCopy(self):\n        return self.shallowCopy()"))
bug('z08', 'C28', G, ("                if cell == self.width * self.height: break", "                if cell == self.width * self.height - 1: break"))
bug('z09', 'C28', G, ("        x = index // self.height\n        y = index % self.height", "        x = index // self.width\n        y = index % self.width"))
bug('z10', 'C27 C22', G, ("            if next_x < 0 or next_x == walls.width: continue", "            if next_x < 0 or next_x == walls.width - 1: continue"))
bug('z11', 'C27 C22', G, ("        x_int, y_int = int(x + 0.5), int(y + 0.5)\n        neighbors = []", "        x_int, y_int = int(x), int(y)\n        neighbors = []"))
bug('z12', 'C29', P, ("        ghostState.configuration = ghostState.start", "        ghostState.start = ghostState.configuration"))
bug('z13', 'C29', P, ("            if numFood == 0 and not state.data._lose:", "            if numFood <= 1 and not state.data._lose:"))
bug('z14', 'C29', P, ("            state.data._eaten = [False for i in range(state.getNumAgents())]", "            state.data._eaten = [False for i in range(state.getNumAgents() - 1)]"))
bug('z15', 'C29', P, ("            if not state.data._win:\n                state.data.scoreChange -= 500", "            if not state.data._win:\n                state.data.score -= 500"))
bug('z16', 'C29', P, ("        if timer == 1:\n            ghostState.configuration.pos", "        if timer <= 1:\n            ghostState.configuration.pos"))
bug('z17', 'C33', G, ("            self.rules.process(self.state, self)\n", "            if not self.rules.quiet or agentIndex == 0: self.rules.process(self.state, self)\n"))
bug('z18', 'C33', G, ("        agentIndex = self.startingIndex\n", "        agentIndex = self.startingIndex % 2\n"))
bug('z19', 'C24', G, ("                        self._agentCrash(agentIndex, quiet=True)\n                        self.unmute()\n                        return\n\n                    move_time", "                        self._agentCrash(agentIndex, quiet=True)\n                        return\n\n                    move_time"))
bug('z20', 'C24', G, ("        sys.stdout = OLD_STDOUT\n        sys.stderr = OLD_STDERR\n", "        sys.stdout = OLD_STDOUT\n        if sys.stderr is sys.stdout: sys.stderr = OLD_STDERR\n"))
bug('z21', 'C23', G, ("            else:\n                observation = self.state.deepCopy()", "            else:\n                observation = self.state"))
bug('z24', 'C31', U, ("                if p <= priority:\n                    break\n                del self.heap[index]", "                if p >= priority:\n                    break\n                del self.heap[index]"))
bug('z25', 'C31', U, ("                self.heap.append((priority, c, item))\n                heapq.heapify(self.heap)", "                self.heap.append((priority, c, item))"))
bug('z26', 'C31', U, ("        entry = (priority, self.count, item)", "        entry = (priority, -self.count, item)"))
bug('z27', 'C31', U, ("        self.setdefault(idx, 0)\n", "        self.setdefault(idx, 1)\n"))
bug('z28', 'C32', K, ("        if (self.STOP_KEY in self.keys) and Directions.STOP in legal: move", "        if (self.STOP_KEY in self.keys): move"))
bug('z29', 'C22 C32', H, ("        for a in legalActions: dist[a] += ( 1-bestProb ) / len(legalActions)", "        for a in Actions._directions: dist[a] += ( 1-bestProb ) / len(legalActions)"))
bug('z30', 'C22', P, ("        if reverse in possibleActions and len( possibleActions ) > 1:", "        if reverse in possibleActions:"))
bug('z31', 'C21', P, ("        return self.data.agentStates[0].copy()", "        self.data.agentStates[0].numCarrying += 0\n        self.data._agentMoved = 0\n        return self.data.agentStates[0].copy()"))
bug('z32', 'C26', L, ("    try: return Layout([line.strip() for line in f])", "    try: return Layout([line.strip() for line in f if not line.startswith(' ')])"))
bug('z33', 'C26', L, ("        self.agentPositions.sort()\n", "        self.agentPositions.sort(reverse=True)\n"))
bug('z34', 'C26', L, ("        self.totalFood = len(self.food.asList())", "        self.totalFood = len(self.food.asList(False))"))
bug('z35', 'C26', L, ("            self.agentPositions.append( (int(layoutChar), (x,y)))\n            self.numGhosts += 1", "            self.agentPositions.append( (int(layoutChar), (x,y)))\n            self.numGhosts = int(layoutChar)"))
bug('z36', 'C28', G, ("                if numGhosts == numGhostAgents: continue", "                if numGhosts > numGhostAgents: continue"))
bug('z37', 'C28 C33', P, ("        initState.initialize( layout, len(ghostAgents) )", "        initState.initialize( layout, len(agents) )"))
CASES = _R
