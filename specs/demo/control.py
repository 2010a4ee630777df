"""Pac-Man demo: control of a game, and the agents' choices."""


class process_over:
    """C29: a game is over exactly when its state is won or lost"""
    target = 'ClassicGameRules.process'

    def code(r: ClassicGameRules, s: GameState, g: Game):
        r.process(s, g)
        return g.gameOver

    def spec(r: ClassicGameRules, s: GameState, g: Game):
        if s.data._win or s.data._lose:
            g.gameOver = True
        return g.gameOver


class keyboard_move:
    """C32: keys choose a direction only where it is legal"""
    target = 'KeyboardAgent.getMove'

    def code(k: KeyboardAgent, l: List[str]):
        return k.getMove(l)

    def spec(k: KeyboardAgent, l: List[str]):
        m = 'Stop'
        if ('a' in k.keys or 'Left' in k.keys) and 'West' in l:
            m = 'West'
        if ('d' in k.keys or 'Right' in k.keys) and 'East' in l:
            m = 'East'
        if ('w' in k.keys or 'Up' in k.keys) and 'North' in l:
            m = 'North'
        if ('s' in k.keys or 'Down' in k.keys) and 'South' in l:
            m = 'South'
        return m


class keyboard_move_2:
    """C32: the second player's keys choose a direction only where it is legal"""
    target = 'KeyboardAgent2.getMove'

    def code(k: KeyboardAgent2, l: List[str]):
        return k.getMove(l)

    def spec(k: KeyboardAgent2, l: List[str]):
        m = 'Stop'
        if 'j' in k.keys and 'West' in l:
            m = 'West'
        if 'l' in k.keys and 'East' in l:
            m = 'East'
        if 'i' in k.keys and 'North' in l:
            m = 'North'
        if 'k' in k.keys and 'South' in l:
            m = 'South'
        return m


class keyboard_action:
    """C32: the keyboard player acts legally, and stops on its stop key where that is legal"""
    target = 'KeyboardAgent.getAction'
    leaves = True
    abstract = {'GameState.getLegalActions': "=['West', 'Stop']", 'KeyboardAgent.getMove': 'str',
                'keys_waiting': 'List[str]', 'keys_pressed': 'List[str]'}
    rejects = 'ignore'
    fails = 'ignore'

    def code(k: KeyboardAgent, s: GameState):
        m = k.getAction(s)
        return m in ('West', 'Stop'), m == 'Stop' or 'q' not in k.keys, k.lastMove == m

    def spec(k: KeyboardAgent, s: GameState):
        return True, True, True


class keyboard_action_moving:
    """C32: where it may not stop the keyboard player moves, whatever the keys"""
    target = 'KeyboardAgent.getAction'
    leaves = True
    abstract = {'GameState.getLegalActions': "=['West']", 'KeyboardAgent.getMove': 'str',
                'keys_waiting': 'List[str]', 'keys_pressed': 'List[str]'}
    rejects = 'ignore'
    fails = 'ignore'

    def code(k: KeyboardAgent, s: GameState):
        m = k.getAction(s)
        return m, k.lastMove

    def spec(k: KeyboardAgent, s: GameState):
        return 'West', 'West'
