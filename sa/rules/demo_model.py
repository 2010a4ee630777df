"""The data model of the Pac-Man demo, whose source carries no annotations."""
L = lambda s: ('list', s)
ANY = ('any',)
HINTS = {
    ('GameState', 'data'): ('cls', 'GameStateData'),
    ('GameStateData', 'food'): ('cls', 'Grid'),
    ('GameStateData', 'capsules'): L(('tuple',)),
    ('GameStateData', 'agentStates'): L(('cls', 'AgentState')),
    ('GameStateData', 'layout'): ('cls', 'Layout'),
    ('GameStateData', '_eaten'): L(('num',)),
    ('AgentState', 'configuration'): ('cls', 'Configuration'),
    ('AgentState', 'start'): ('cls', 'Configuration'),
    ('Grid', 'data'): L(L(('num',))),
    ('Layout', 'walls'): ('cls', 'Grid'),
    ('Layout', 'food'): ('cls', 'Grid'),
    ('Layout', 'capsules'): L(('tuple',)),
    ('Layout', 'agentPositions'): L(('tuple',)),
    ('Layout', 'layoutText'): L(('str',)),
    ('Game', 'state'): ('cls', 'GameState'),
}
PARAMS = {'prevState': None, 'state': ('cls', 'GameState'), 'layout': ('cls', 'Layout'),
          'ghostState': ('cls', 'AgentState'), 'config': ('cls', 'Configuration'), 'walls': ('cls', 'Grid'),
          'agentStates': L(('cls', 'AgentState'))}
PARAMS = {k: v for k, v in PARAMS.items() if v}
