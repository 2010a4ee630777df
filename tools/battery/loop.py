G = 'demo/game.py'
U = 'demo/util.py'
L = 'demo/layout.py'
P = 'C23 C24 C33'
CASES = [
    ('b1', 'bug', P, G, [('observation = timed_func(self.state.deepCopy())', 'observation = timed_func(self.state)')]),
    ('b2', 'bug', P, G, [('                observation = self.state.deepCopy()', '                observation = self.state')]),
    ('b3', 'bug', P, G, [('                        self._agentCrash(agentIndex, quiet=True)\n                        self.unmute()\n                        return\n\n                    move_time', '                        self._agentCrash(agentIndex, quiet=True)\n                        return\n\n                    move_time')]),
    ('b4', 'bug', P, G, [('                            self._agentCrash(agentIndex, quiet=True)\n                            self.unmute()\n                            return\n\n', '                            self._agentCrash(agentIndex, quiet=True)\n                            return\n\n')]),
    ('b5', 'bug', P, G, [('self.state.generateSuccessor( agentIndex, action )', 'self.state.deepCopy().generateSuccessor( agentIndex, action )')]),
    ('b6', 'bug', P, G, [('agentIndex = ( agentIndex + 1 ) % numAgents', 'agentIndex = ( agentIndex + 2 ) % numAgents')]),
    ('b7', 'bug', P, G, [('agentIndex = self.startingIndex', 'agentIndex = 0')]),
    ('b8', 'bug', P, G, [('self.moveHistory.append( (agentIndex, action) )', 'self.moveHistory.append( (self.startingIndex, action) )')]),
    ('b9', 'bug', P, G, [('        self.agentCrashed = True\n', '')]),
    ('b10', 'bug', P, G, [("                    self._agentCrash(agentIndex)\n                    self.unmute()\n                    return\n            else:\n                action", "                    self.unmute()\n                    return\n            else:\n                action")]),
    ('b11', 'bug', P, G, [('except TimeoutFunctionException:\n                            skip_action = True', 'except TimeoutFunctionException:\n                            pass')]),
    ('b12', 'bug', P, G, [('        sys.stderr = OLD_STDERR', '        sys.stderr = OLD_STDOUT')]),
    ('b13', 'bug', P, G, [('        sys.stderr = self.agentOutput[agentIndex]', '        sys.stderr = self.agentOutput[0]')]),
    ('b14', 'bug', P, G, [('            self.mute(agentIndex)\n            if self.catchExceptions:\n                try:\n                    timed_func = TimeoutFunction(agent.getAction', '            if self.catchExceptions:\n                try:\n                    timed_func = TimeoutFunction(agent.getAction')]),
    ('b15', 'bug', P, G, [('                    agent.final( self.state )\n                    self.unmute()\n', '                    agent.final( self.state )\n')]),
    ('b16', 'bug', P, G, [("                            print(\"Agent %d ran out of time on startup!\" % i, file=sys.stderr)\n                            self.unmute()\n                            self.agentTimeout = True\n", "                            print(\"Agent %d ran out of time on startup!\" % i, file=sys.stderr)\n                            self.unmute()\n")]),
    ('b17', 'bug', P, G, [('        agentIndex = self.startingIndex\n', '        agentIndex = self.startingIndex\n        shared = self.state.deepCopy()\n'), ('                observation = self.state.deepCopy()', '                observation = shared')]),
    ('b18', 'bug', P, G, [('                    except Exception as data:\n                        self._agentCrash(i, quiet=False)\n                        self.unmute()\n                        return\n', '                    except ValueError as data:\n                        self._agentCrash(i, quiet=False)\n                        self.unmute()\n                        return\n')]),
    ('t1', 'bug', 'C25', U, [('            finally:\n                signal.alarm(0)\n                signal.signal(signal.SIGALRM, old)', '            finally:\n                signal.signal(signal.SIGALRM, old)\n                signal.alarm(0)')]),
    ('t2', 'bug', 'C25', U, [('            finally:\n                signal.alarm(0)\n                signal.signal(signal.SIGALRM, old)', '            except TimeoutFunctionException:\n                signal.signal(signal.SIGALRM, old)\n                raise\n            signal.alarm(0)\n            signal.signal(signal.SIGALRM, old)')]),
    ('t3', 'bug', 'C25', U, [('            signal.alarm(self.timeout)\n            try:', '            try:\n                signal.alarm(self.timeout)'), ('                signal.alarm(0)\n', '')]),
    ('t4', 'bug', 'C25', U, [('            old = signal.signal(signal.SIGALRM, self.handle_timeout)\n            signal.alarm(self.timeout)', '            signal.alarm(self.timeout)\n            old = signal.signal(signal.SIGALRM, self.handle_timeout)')]),
    ('t5', 'bug', 'C25', U, [('result = self.function(*args, **keyArgs)', 'result = self.function(*args)')]),
    ('t6', 'bug', 'C25', U, [('                signal.signal(signal.SIGALRM, old)', '                signal.signal(signal.SIGALRM, signal.SIG_DFL)')]),
    ('t7', 'bug', 'C25', U, [('            signal.alarm(self.timeout)\n', '            if self.timeout > 1: signal.alarm(self.timeout)\n')]),
    ('l1', 'bug', 'C26', L, [('        try: layout = getLayout(name, back -1)\n        finally: os.chdir(curdir)', '        layout = getLayout(name, back -1)\n        os.chdir(curdir)')]),
    ('l2', 'bug', 'C26', L, [('        try: layout = getLayout(name, back -1)\n        finally: os.chdir(curdir)', '        layout = getLayout(name, back -1)\n        if layout is not None: os.chdir(curdir)')]),
    ('l3', 'bug', 'C26', L, [('    try: return Layout([line.strip() for line in f])\n    finally: f.close()', '    layout = Layout([line.strip() for line in f])\n    f.close()\n    return layout')]),
    ('l4', 'bug', 'C26', L, [("        curdir = os.path.abspath('.')\n        os.chdir('..')", "        os.chdir('..')\n        curdir = os.path.abspath('.')")]),
    # behaviour kept
    ('o1', 'ok', P, G, [('                    except Exception as data:\n                        self._agentCrash(i, quiet=False)\n                        self.unmute()\n                        return\n', '                    except Exception as data:\n                        self._fail(i)\n                        return\n'), ('    def run( self ):', '    def _fail(self, i):\n        self._agentCrash(i, quiet=False)\n        self.unmute()\n\n    def run( self ):')]),
    ('o2', 'ok', P, G, [('            # Execute the action\n            self.moveHistory.append( (agentIndex, action) )', '            # Execute the action\n            move = (agentIndex, action)\n            self.moveHistory.append(move)')]),
    ('o3', 'ok', P, G, [('            agentIndex = ( agentIndex + 1 ) % numAgents', '            agentIndex += 1\n            agentIndex = agentIndex % len(self.agents)')]),
    ('o4', 'ok', P, G, [('        for i in range(len(self.agents)):\n            agent = self.agents[i]\n', '        for i, agent in enumerate(self.agents):\n')]),
    ('o5', 'ok', P, G, [('            if self.catchExceptions:\n                try:\n                    self.state = self.state.generateSuccessor( agentIndex, action )\n                except Exception as data:\n                    self.mute(agentIndex)\n                    self._agentCrash(agentIndex)\n                    self.unmute()\n                    return\n            else:\n                self.state = self.state.generateSuccessor( agentIndex, action )\n', '            try:\n                nextState = self.state.generateSuccessor( agentIndex, action )\n            except Exception as data:\n                if not self.catchExceptions:\n                    raise\n                self.mute(agentIndex)\n                self._agentCrash(agentIndex)\n                self.unmute()\n                return\n            self.state = nextState\n')]),
    ('o6', 'ok', P, G, [('        if not self.muteAgents: return\n        global OLD_STDOUT, OLD_STDERR\n        # Revert', '        global OLD_STDOUT, OLD_STDERR\n        if self.muteAgents is False:\n            return\n        # Revert'), ('        sys.stdout = OLD_STDOUT\n        sys.stderr = OLD_STDERR', '        sys.stdout, sys.stderr = OLD_STDOUT, OLD_STDERR')]),
    ('o7', 'ok', P, G, [('        while not self.gameOver:\n', '        while True:\n            if self.gameOver: break\n')]),
    ('o8', 'ok', P, G, [('            agentIndex = ( agentIndex + 1 ) % numAgents', '            agentIndex = agentIndex + 1\n            if agentIndex == numAgents:\n                agentIndex = 0')]),
    ('o9', 'ok', P, G, [("            if 'observationFunction' in dir( agent ):\n                self.mute", "            if hasattr(agent, 'observationFunction'):\n                self.mute")]),
    ('o10', 'ok', P, G, [('                    observation = agent.observationFunction(self.state.deepCopy())', '                    view = self.state.deepCopy()\n                    observation = agent.observationFunction(view)')]),
    ('o11', 'ok', 'C25', U, [('            finally:\n                signal.alarm(0)\n                signal.signal(signal.SIGALRM, old)', '            finally:\n                self._disarm(old)'), ('    def __call__(self, *args', '    def _disarm(self, old):\n        signal.alarm(0)\n        signal.signal(signal.SIGALRM, old)\n\n    def __call__(self, *args')]),
    ('o12', 'ok', 'C25', U, [('                result = self.function(*args, **keyArgs)\n            finally:', '                return self.function(*args, **keyArgs)\n            finally:'), ("        if hasattr(signal, 'SIGALRM'):\n", "        supported = hasattr(signal, 'SIGALRM')\n        if supported:\n")]),
    ('o13', 'ok', 'C26', L, [('    f = open(fullname)\n    try: return Layout([line.strip() for line in f])\n    finally: f.close()', '    with open(fullname) as f:\n        lines = [line.strip() for line in f]\n    return Layout(lines)')]),
    ('o14', 'ok', 'C26', L, [("        curdir = os.path.abspath('.')\n        os.chdir('..')\n        try: layout = getLayout(name, back -1)\n        finally: os.chdir(curdir)", "        here = os.getcwd()\n        os.chdir(os.pardir)\n        try:\n            return getLayout(name, back - 1)\n        finally:\n            os.chdir(here)")]),
    ('o15', 'ok', 'C26', L, [('def tryToLoad(fullname):', 'from contextlib import contextmanager\n@contextmanager\ndef _in(path):\n    here = os.getcwd()\n    os.chdir(path)\n    try:\n        yield\n    finally:\n        os.chdir(here)\n\ndef tryToLoad(fullname):'), ("        curdir = os.path.abspath('.')\n        os.chdir('..')\n        try: layout = getLayout(name, back -1)\n        finally: os.chdir(curdir)", "        with _in('..'):\n            layout = getLayout(name, back - 1)")]),
    ('w1', 'ok', 'C33 C23 C24', G, [('            agentIndex = ( agentIndex + 1 ) % numAgents\n', '            agentIndex = agentIndex + 1 if agentIndex + 1 < numAgents else 0\n')]),
    ('w2', 'ok', 'C33 C23 C24', G, [('            agentIndex = ( agentIndex + 1 ) % numAgents\n', '            agentIndex += 1\n            if agentIndex == numAgents:\n                agentIndex = 0\n')]),
    ('w3', 'ok', 'C33 C23 C24', G, [('            agentIndex = ( agentIndex + 1 ) % numAgents\n', '            if agentIndex < numAgents - 1:\n                agentIndex += 1\n            else:\n                agentIndex = 0\n')]),
    ('w4', 'bug', 'C33 C23 C24', G, [('            agentIndex = ( agentIndex + 1 ) % numAgents\n', '            if agentIndex < numAgents - 2:\n                agentIndex += 1\n            else:\n                agentIndex = 0\n')]),
    ('w5', 'bug', 'C33 C23 C24', G, [('            agentIndex = ( agentIndex + 1 ) % numAgents\n', '            agentIndex += 1\n            if agentIndex > numAgents:\n                agentIndex = 0\n')]),
    ('w6', 'ok', 'C33 C23 C24', G, [('            agentIndex = ( agentIndex + 1 ) % numAgents\n', '            agentIndex += 1\n            if agentIndex >= len(self.agents):\n                agentIndex -= numAgents\n')]),
]
