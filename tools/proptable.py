ANYIN = 'every vocabulary, every sample / sample set / space that can be built over it, every argument'

OA = ('static ownership analysis: flow-sensitive abstract interpretation of access paths (allocation sites, fields, '
      'elements, keys), callees analysed in the context of their caller; rules over writes, stores, constructions, '
      'returns and refusals')

prop('C01', 'Finished objects never change',
     'Once a node, edge, sample, sample set, space, relation graph, conditional graph, folded graph or activation graph is built, no later operation on it, on the builder it came from or on any object sharing its parts changes what it contains or answers. Asking the same question again with the same arguments gives the same answer, whatever was asked in between.',
     ['histories'], 'every sequence of operations on a finished object, its builder and the objects derived from it',
     'Changes through shared containers only show when an object is looked at again after unrelated operations, in an order tests do not try.',
     [R + 'graph_components.py', R + 'sample_graph.py', R + 'sample_set.py', R + 'sample_space.py', R + 'relation_graph.py', R + 'conditional_graph.py', R + 'folded_graph.py', R + 'activation_graph.py', R + 'variables_graph.py'],
     [('finished classes', R + '*.py'), ('building finished objects', R + 'sample_graph.py SampleGraphBuilder.build; sample_set.py SampleSetBuilder.build; relation_graph.py RelationGraphBuilder.build')],
     technique=OA)

prop('C02', 'No changeable container is shared with the caller',
     'No object keeps a changeable set, dictionary or list passed by its caller and none hands out one it keeps using, so changing an argument after the call or a result after receiving it never changes a vocabulary, builder or graph; copies and builders made from an object are independent of it. No operation changes a container passed to it.',
     ['histories', 'inputs'], 'every call followed by any change of its arguments or of its result',
     'Sharing is invisible until somebody changes the container later.',
     [R + 'graph_components.py', R + 'sample_graph.py', R + 'sample_set.py', R + 'folded_graph.py', R + 'activation_graph.py', R + 'relation_graph.py', R + 'sample_space.py'],
     [('constructors', R + 'graph_components.py BuilderComponentsProvider.__init__; sample_graph.py SampleGraphBuilder.__init__; sample_set.py SampleSet.__init__'), ('accessors', R + '*.py')],
     technique=OA)

prop('C03', 'Equality is equality of content and agrees with hashing',
     'Two nodes, edges, directed relations, samples, sample sets or graph elements are equal exactly when their defining content is equal (variable and value; endpoints and relation; nodes and edges; samples with their counts), whatever name they carry and however they were built. Objects that are equal always have equal hashes.',
     ['inputs', 'histories'], ANYIN,
     'Tests compare a few hand-made pairs; the contract is over all pairs and every route by which an object is built.',
     [R + 'graph_components.py', R + 'sample_graph.py', R + 'sample_set.py', R + 'variables_graph.py', R + 'folded_graph.py', R + 'activation_graph.py'],
     [('equality and hash methods', R + 'graph_components.py ValueNode.__eq__/__hash__, RelationEdge, DirectedRelation'),
      ('sample equality', R + 'sample_graph.py SampleGraph.__eq__/__hash__'), ('sample set equality', R + 'sample_set.py SampleSet.__eq__')])

prop('C04', 'Building, reading back and converting a sample loses nothing',
     'Whatever is put into a sample, a space or a relation graph is what is read back: a node reports its variable and value, an edge its endpoints and relation, a directed relation which variable is its source and which its target, and the plain edge views name every edge by exactly those. Turning a sample or a space back into a builder (or a space into a relation graph) and building again yields equal content, counts and vocabulary.',
     ['inputs', 'histories'], ANYIN,
     'Tests round-trip a couple of small graphs; loss shows only for particular shapes (directed edges, single nodes, repeated counts).',
     [R + 'graph_components.py', R + 'sample_graph.py', R + 'sample_space.py', R + 'relation_graph.py'],
     [('views and builders', R + 'sample_graph.py SampleGraph.edges_set_view, builder'), ('space conversion', R + 'sample_space.py SampleSpace.builder, relation_graph')])

prop('C05', 'Only declared variables, values and relations ever enter a sample',
     'A vocabulary hands out nodes only for declared variables and declared values, and edges only over nodes it issued and for declared relations; a directed relation is accepted only if it names the variables of both endpoints. Everything else is refused, and the vocabulary reports exactly what was declared.',
     ['inputs'], 'every declaration of variables and relations, every requested node and edge',
     'Tests request a few undeclared names; the closure has to hold for every combination of declared and undeclared parts.',
     [R + 'graph_components.py', R + 'sample_graph.py'],
     [('component provider', R + 'graph_components.py BuilderComponentsProvider.get_node, get_edge, variables, relations')])

prop('C06', 'One object per node and edge: components are interned',
     'Within one vocabulary, asking again for the same node or edge hands out the object issued first, it is never replaced by a later request, and all issued nodes and edges are reported.',
     ['histories'], 'every sequence of node and edge requests',
     'Interning must survive every history of requests; tests repeat one request twice.',
     [R + 'graph_components.py'],
     [('component provider', R + 'graph_components.py BuilderComponentsProvider.get_node, get_edge, nodes, edges')])

prop('C07', 'Objects of different vocabularies are never mixed',
     'Compatibility is identity of the vocabulary, and every operation that combines samples, sets or evidence refuses parts that belong to another vocabulary. Every derived object belongs to the vocabulary of the object it was derived from.',
     ['inputs', 'histories'], ANYIN,
     'Tests try one foreign object on one entry point; every entry point and every derived object has to keep the gate.',
     [R + 'sample_graph.py', R + 'sample_set.py', R + 'relation_graph.py', R + 'sample_space.py', R + 'conditional_graph.py'],
     [('gates', R + 'sample_set.py SampleSetBuilder.add, SampleSet.union; relation_graph.py conditional_graph')])

prop('C08', 'A finished sample is non-empty, connected and singly related',
     'A relation is added to a growing sample only if it joins two nodes of two different variables, touches what is already there (unless the sample is empty), and its endpoints are not related yet; otherwise the request is refused. Building yields exactly the collected nodes and edges, and refuses a sample without any node.',
     ['inputs', 'histories'], 'every sequence of building steps',
     'Tests try a few orders of a few relations; the invariant is over all building histories.',
     [R + 'sample_graph.py'], [('sample builder', R + 'sample_graph.py SampleGraphBuilder.add_relation, validate_endpoints, build')])

prop('C09', 'Conflicting samples are recognised before they are joined',
     'A sample can be joined into a growing one exactly when no pair of endpoints they share carries a different relation, and the values of a set of samples match exactly when no variable has two different values among them.',
     ['inputs'], ANYIN,
     'Conflicts can hide in any pair of edges or variables of any two samples; tests show one conflicting pair.',
     [R + 'sample_graph.py', R + 'sample_set.py'],
     [('conflict checks', R + 'sample_graph.py SampleGraphBuilder.can_sample_be_joined; sample_set.py SampleSet.is_all_values_match')])

prop('C10', 'A refused request leaves the builder as it was',
     'When a builder refuses to add a relation, join a sample, build from edges, add or remove a sample or add an outcome, its content is exactly what it was before the request, and later requests behave as if the refused one had never been made.',
     ['inputs', 'histories'], 'every refused single request at every state of a builder',
     'Tests check that a request is refused, not what the builder holds afterwards.',
     [R + 'sample_graph.py', R + 'sample_set.py', R + 'relation_graph.py'],
     [('checks before changes', R + 'sample_graph.py SampleGraphBuilder.add_relation, join_sample, build_from_edges; sample_set.py SampleSetBuilder.add, remove; relation_graph.py RelationGraphBuilder.add_outcome')],
     technique=OA)

prop('C11', 'Sample counts are conserved by every set operation',
     'Adding, uniting, removing and filtering samples changes exactly the counts it names: counts of equal samples add up, a removal removes exactly the named samples, a filter keeps the selected samples with their counts, and nothing else is touched. The size of a set is the sum of its counts, and adding an outcome with a count below one is refused.',
     ['inputs', 'histories'], 'every set of counted samples and every sequence of operations',
     'Tests use two or three samples with small counts; a slip shows for repeated samples or unusual counts.',
     [R + 'sample_set.py', R + 'relation_graph.py'],
     [('set algebra', R + 'sample_set.py SampleSet.union, filter_samples, __len__; SampleSetBuilder.add, add_all, remove, remove_all'), ('outcome counting', R + 'relation_graph.py RelationGraphBuilder.add_outcome, add_outcomes, build_sample')])

prop('C12', 'Conditioning selects exactly the consistent outcomes',
     'Conditioning a relation graph on evidence keeps exactly the outcomes that contain the evidence or share no variable with it, each with its count. Searching a space for given values finds exactly the outcomes carrying all of them, with their counts.',
     ['inputs'], 'every relation graph, evidence and set of searched values',
     'Selection errors show only for particular overlaps of evidence and outcomes.',
     [R + 'relation_graph.py', R + 'sample_space.py'],
     [('conditioning', R + 'relation_graph.py RelationGraph.conditional_graph'), ('search', R + 'sample_space.py SampleSpace.find_for_values')])

prop('C13', 'Probabilities and marginals are count shares',
     'The probability of an outcome is its count divided by the sum of all counts. A marginal gives every occurring value of a variable its share of the counts of the outcomes carrying that variable, or, when unobserved values are asked for, its share of all counts with the remainder reported as unobserved.',
     ['inputs'], 'every space, every selection of variables',
     'Weighting slips cancel out for the equal counts tests use.',
     [R + 'sample_set.py', R + 'sample_space.py'],
     [('probabilities', R + 'sample_set.py SampleSet.probabilities, probability_of'), ('marginals', R + 'sample_space.py SampleSpace.marginal_variables_probability')])

prop('C14', 'Folding tallies every outcome exactly once',
     'A folded node of a variable tallies each value node of that variable with the summed counts of the outcomes containing it, a folded edge tallies each relation edge between its two variables likewise, and what the value counts leave of the number of outcomes is reported as unobserved. Marginal distributions of folded nodes give each declared value its share of all outcomes.',
     ['inputs'], 'every space of outcomes',
     'Tallies go wrong for repeated counts, missing variables or several relations between the same variables, which tests do not combine.',
     [R + 'sample_space.py', R + 'folded_graph.py', R + 'variables_graph.py'],
     [('folding', R + 'sample_space.py SampleSpace.folded_graph'), ('tallies', R + 'folded_graph.py FoldedNode.unobserved_count, marginal_distribution')])

prop('C15', 'Similarity is shared content over united content',
     'The similarity of two samples is the number of nodes and edges they share divided by the number of nodes and edges of both together, so it lies between 0 and 1, is symmetric and is 1 for equal samples.',
     ['inputs'], 'every pair of samples', 'A ratio over all pairs of graphs; tests try three pairs.',
     [R + 'sample_graph.py'], [('similarity', R + 'sample_graph.py SampleGraph.similarity')])

prop('C16', 'Queries report exactly the content',
     'Every question a sample, set, space or graph answers about its content (values, variables, neighbours, belts, sub-samples, endpoints, included variables and relations, descriptions) reports everything that is there and nothing that is not.',
     ['inputs'], ANYIN, 'Each query quantifies over all graph shapes; tests look at one or two graphs.',
     [R + 'sample_graph.py', R + 'sample_set.py', R + 'sample_space.py', R + 'relation_graph.py', R + 'conditional_graph.py'],
     [('sample queries', R + 'sample_graph.py SampleGraph'), ('space queries', R + 'sample_space.py SampleSpace.included_variables, included_relations')])

prop('C17', 'A relation graph knows whether it is joined',
     'A relation graph counts as joined exactly when all its outcomes cover the same variables.',
     ['inputs'], 'every relation graph', 'Quantifies over all outcome sets.',
     [R + 'relation_graph.py'], [('classification', R + 'relation_graph.py RelationGraph.is_joined')])

prop('C18', 'Replacing values rewrites exactly the named variables',
     'Replacing values in a sample gives every node of a named variable its new value, leaves all other nodes as they are, and rewrites edges only at replaced endpoints, keeping their relation and their other endpoint.',
     ['inputs'], 'every sample and every mapping of variables to new values',
     'Edge cases are edges with one or two replaced endpoints and single nodes; tests use one mapping.',
     [R + 'sample_graph.py'], [('replacement', R + 'sample_graph.py SampleGraph.transform_with_replaced_values')])

OT = ('static dataflow rule on value graphs: every printing method is summarised symbolically and no term that exposes '
      'the iteration order of a set or mapping may reach the text outside a sort')

prop('C19', 'Printed texts do not depend on set order',
     'What a node, edge, sample, sample set, space, graph or builder prints about itself (repr, text view, description, list of samples) depends on its content only: whatever comes out of a set or mapping is sorted, or is the only element there is, so equal objects print equal texts.',
     ['inputs', 'schedules'], 'every finished object, every hash seed and insertion order',
     'The iteration order of sets changes with the hash seed and with history; a test sees one order.',
     [R + 'sample_graph.py', R + 'sample_set.py', R + 'sample_space.py', R + 'graph_components.py', R + 'folded_graph.py', R + 'activation_graph.py', R + 'variables_graph.py'],
     [('text of a sample', R + 'sample_graph.py SampleGraph.text_view'), ('list of samples', R + 'sample_space.py SampleSpace.print_samples'), ('reprs', R + 'graph_components.py RelationEdge.__repr__')], technique=OT)

prop('C20', 'Drawings show exactly the content, in a file with a safe name',
     'Drawing a sample adds exactly its nodes and its edges (labelled with their relation) to the page; drawing a folded or activation graph adds every node or declared variable and every edge; drawing a space adds every outcome, and the evidence, under keys of their own. The page is written to a file named after the given name, or the object, keeping only letters, digits and the few allowed signs.',
     ['inputs'], 'every drawable object and every name',
     'Tests open the pages for one example and look at nothing; names with path separators or empty graphs are not tried.',
     [R + 'sample_graph.py', R + 'folded_graph.py', R + 'activation_graph.py', R + 'sample_space.py'],
     [('drawing of samples', R + 'sample_graph.py SampleGraph.visualize'), ('drawing of variable graphs', R + 'folded_graph.py FoldedGraph.visualize, activation_graph.py ActivationGraph.visualize'), ('drawing of outcomes', R + 'sample_space.py SampleSpace.visualize_outcomes')],
     note='the drawing library is replaced by a recorder inside the analysis; label texts of variable graphs and colours are not decided')

prop('C34', 'Activation weighs every declared value by its outcomes',
     'The activation graph of a conditional graph has one node per declared variable, marked as belonging to the query exactly when the evidence covers the variable. The weight of a value is summed over the outcomes and divided by the number of outcomes: an evidence value counts each outcome that holds it fully, a value reached from the evidence counts it times its similarity to the evidence. Each activation edge tallies, per relation, the counts of the outcomes for the evidence edges and the edges by which values were reached between its two variables.',
     ['inputs'], 'every conditional graph, evidence and relation filter',
     'Weights combine counts, similarity, reachability and evidence; tests check one small graph with count 1 outcomes.',
     [R + 'conditional_graph.py', R + 'activation_graph.py', R + 'sample_graph.py'],
     [('activation', R + 'conditional_graph.py ConditionalGraph.activation_graph'), ('weights', R + 'activation_graph.py ActiveNode, ActiveEdge')],
     note='similarity and reachability are uninterpreted here and decided by C15 and C16; the query mark of edges is not decided')

# ---- the Pac-Man demo -------------------------------------------------------------------------
FL = ('static typestate analysis: path-sensitive abstract interpretation of the control flow (calls inlined, loops widened '
      'to a fixpoint, exceptions followed), tracking the state of streams, alarms, directories, turns and recorded moves '
      'over symbolic object identities')

prop('C21', 'Asking a game state or an agent never changes the state',
     'Generating a successor, listing legal actions, copying, comparing, printing or reading a game state, and letting an agent decide, never change the state (or the grids, agent records, configurations and layout) they are given.',
     ['histories', 'inputs'], 'every state, every query or decision, every later use of the state',
     'A search looks at a state again after thousands of successors; tests look once.',
     [D + 'pacman.py', D + 'game.py', D + 'layout.py', D + 'ghostAgents.py', D + 'keyboardAgents.py'],
     [('state queries', D + 'pacman.py GameState; game.py GameStateData, Grid, AgentState, Configuration, Actions'),
      ('agents', D + 'ghostAgents.py; keyboardAgents.py')], technique=OA)

prop('C22', 'Only legal actions are played, and a finished game has none',
     'A finished game has no legal actions and refuses successors. Pac-Man may take every action his surroundings allow; a ghost may not stop, and may turn around only where there is no other way. An illegal action is refused; a legal one moves the agent by one step of its speed (ghosts at half speed while scared), on a copy of the state.',
     ['inputs', 'histories'], 'every state, every agent, every action',
     'Legality depends on walls, direction, timers and outcome together; play-throughs cover few combinations.',
     [D + 'pacman.py', D + 'game.py'],
     [('legal actions', D + 'pacman.py GameState.getLegalActions, PacmanRules.getLegalActions, GhostRules.getLegalActions'),
      ('applying actions', D + 'pacman.py GameState.generateSuccessor, PacmanRules.applyAction, GhostRules.applyAction')])

prop('C23', 'Agents only ever see copies of the running game',
     'While a game is played, every state handed to an agent (to initialise, observe, decide or finish) is a fresh copy of the current state that no other agent was handed, or what the agent itself made of such a copy; so whatever an agent does to it, the game and the other agents are unaffected.',
     ['histories', 'schedules'], 'every game, every agent behaviour',
     'A leak shows only with an agent that changes what it is given.',
     [D + 'game.py'], [('control loop', D + 'game.py Game.run')], technique=FL)

prop('C24', 'Output streams are given back after every agent call',
     'With muting on, agent code runs only while its output is captured in its own buffer, and whenever the control loop returns the output streams are those it started with; muting and unmuting are inverse of each other.',
     ['histories', 'fault_sequences'], 'every game, every agent that returns, fails (with exceptions caught) or runs out of time',
     'Streams are lost only on particular failure paths.',
     [D + 'game.py'], [('muting', D + 'game.py Game.mute, Game.unmute, Game.run')], technique=FL)

prop('C25', 'A time limit leaves no trace',
     'A function run under a time limit runs with the alarm armed for that limit; however it ends (result, failure, time-out), the alarm is off again and the previous handler is back, and its arguments, result and failures pass through unchanged.',
     ['fault_sequences', 'schedules', 'inputs'], 'every function, limit and way of ending',
     'Needs failures and time-outs in combination with previously installed handlers.',
     [D + 'util.py'], [('time limit', D + 'util.py TimeoutFunction')], technique=FL)

prop('C26', 'Loading a layout reads exactly its file and leaves no trace',
     'Each character of a layout places exactly what it stands for at its cell. Looking for a layout leaves the working directory as it was and no file open, whether the layout is found or not.',
     ['inputs', 'fault_sequences'], 'every layout text and layout name',
     'The search changes directory and back; only missing layouts exercise the second way.',
     [D + 'layout.py'], [('layout parsing', D + 'layout.py Layout.processLayoutText, processLayoutChar'),
                         ('layout search', D + 'layout.py getLayout, tryToLoad')], technique=FL + '; and ' + VG)

prop('C27', 'Directions, vectors and moves fit together',
     'Left, right and reverse are consistent on all directions; vectors and directions convert into each other; moving a configuration translates it by the vector and turns it along; possible actions and neighbours are exactly the steps that stay inside the grid and do not enter a wall.',
     ['inputs'], 'every position, direction, speed and wall grid', 'Quantifies over all positions and grids.',
     [D + 'game.py'], [('movement', D + 'game.py Directions, Actions, Configuration.generateSuccessor')])

prop('C28', 'Copies of a state are complete and independent',
     'Copying a game state, its data, an agent record, a grid or a layout carries every cell, field and record over as it was, resets only the per-move notes of a successor, and shares no grid, list or agent record with the original. A new game or grid holds exactly what its layout or size says, and queries answer with the state they are asked about.',
     ['inputs', 'histories'], 'every state and every later change of either side',
     'Missing or shared parts show only after changing the right part of the right copy.',
     [D + 'game.py', D + 'pacman.py', D + 'layout.py'],
     [('copying', D + 'game.py GameStateData, Grid, AgentState; pacman.py GameState.deepCopy; layout.py Layout.deepCopy')],
     technique=VG + '; and ' + OA)

prop('C29', 'Scores, food, capsules and deaths follow the rules',
     'Food scores 10 and disappears, the last one wins with 500 more; a capsule scares every ghost for 40 moves; a scared timer runs down to zero and no further; waiting costs a point; meeting a scared ghost within reach scores 200 and sends it home, meeting another one loses 500 and the game unless it is won; after Pac-Man moved every ghost is checked, after a ghost moved only that ghost.',
     ['inputs', 'histories'], 'every state and every move', 'Rules interact: last food beside a ghost, timers at their last tick, several ghosts.',
     [D + 'pacman.py'], [('rules', D + 'pacman.py PacmanRules.consume, GhostRules.decrementTimer, collide, canKill, checkDeath; GameState.generateSuccessor; ClassicGameRules.process')])

prop('C30', 'Equal states are equal in content',
     'Two configurations, agent records, grids or game states are equal exactly when their defining content is: position and direction; configuration and scared timer; all cells; agents, food, capsules and score.',
     ['inputs'], 'every pair of states', 'A search that compares states depends on it for every pair.',
     [D + 'game.py'], [('equality', D + 'game.py Configuration.__eq__, AgentState.__eq__, Grid.__eq__, GameStateData.__eq__')])

prop('C31', 'Distances, nearest cells and containers do what they say',
     'The Manhattan distance, the nearest cell of a position and the sign of a number are those of mathematics; a stack gives back the last item pushed, a queue the first, and a priority queue the one of lowest priority, of equal ones the first; updating an item there never raises its priority value.',
     ['inputs', 'histories'], 'every pair of positions, every sequence of pushes and pops', 'Quantifies over all inputs and histories.',
     [D + 'util.py'], [('helpers', D + 'util.py manhattanDistance, nearestPoint, sign, Stack, Queue')])

prop('C32', 'Keys only ever choose legal directions',
     'A pressed key chooses its direction only where that direction is legal; otherwise none is chosen.',
     ['inputs'], 'every set of keys and legal actions', 'Quantifies over key combinations and legal sets.',
     [D + 'keyboardAgents.py'], [('keys', D + 'keyboardAgents.py KeyboardAgent.getMove, KeyboardAgent2.getMove')])

prop('C33', 'The game plays the moves its agents return, in turn',
     'In every round the agent whose turn it is decides once, its action is applied for that agent to the current state, recorded with that agent, its result becomes the current state, the display and the rules see it before the next round, and the turn passes to the next agent, wrapping around.',
     ['histories', 'schedules'], 'every game with any number of agents, with and without time limits',
     'Turn and history slips show only for particular agent numbers, failures and lengths.',
     [D + 'game.py'], [('control loop', D + 'game.py Game.run')], technique=FL)


prop('C35', 'Joined outcomes are combinations of the joined, with their counts',
     'Joining sample sets keeps every sample with the sum of its counts, joining on variables and joining into one sample take the nodes and edges of all the parts, and a set can be joined exactly when no two of its samples give a variable different values.',
     ['inputs'], ANYIN,
     'Counts and members go wrong only for particular overlaps of the joined sets; tests show one.',
     [R + 'sample_set.py'],
     [('joins', R + 'sample_set.py SampleSetBuilder.join_sample_set; SampleSet.make_joined_sample')])

prop('C36', 'Grouping and factoring put every outcome with its count in exactly one group',
     'Outcomes relating the same variables share a group, outcomes relating different ones are apart, an outcome relating what others relate brings them together, and each outcome is in exactly one group with its own count. Factors of a relation graph partition its outcomes the same way.',
     ['inputs'], ANYIN,
     'Groups merge or lose outcomes only for particular patterns of shared variables; tests show one pattern.',
     [R + 'sample_set.py', R + 'sample_space.py'],
     [('grouping', R + 'sample_set.py SampleSet.group_intersecting; sample_space.py SampleSpace.factorized')])

prop('C37', 'Every possible outcome is generated, once each',
     'Generating all possible outcomes of a relation graph ends, and yields every connected sample that its declared values and relations allow, each exactly once.',
     ['inputs'], 'every vocabulary',
     'The number of outcomes grows super-exponentially with the vocabulary; tests list a handful.',
     [R + 'relation_graph.py', R + 'sample_graph.py'],
     [('generation', R + 'relation_graph.py RelationGraphBuilder.generate_all_possible_outcomes')],
     na='completeness of a recursive enumeration over a growing set of partial samples: the claim quantifies over the length of '
        'every construction history, and no loop invariant a syntax-directed analysis could close bounds it. Parts that can be '
        'decided are claimed elsewhere: only declared components (C05), connected and singly related samples (C08).')

prop('C38', 'Inference agrees with Bayesian and Markov networks',
     'Marginals and conditionals of a relation graph built from the joint distribution of a Bayesian or Markov network agree with those of the network within floating-point accuracy.',
     ['inputs'], 'every network and evidence',
     'Tests compare a few networks of two or three variables.',
     [R + 'relation_graph.py', 'Python/research/scripts/experiments/comparing_with_bayes_network.py'],
     [('comparison', 'Python/research/scripts/experiments/comparing_with_bayes_network.py, comparing_with_markov_network.py')],
     na='numerical agreement with an external library (pgmpy) on floating-point values: neither the library nor rounding is '
        'in the analysed source. The exact, real-number content of the marginals is claimed in C13 and of conditioning in C12.')
