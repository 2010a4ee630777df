"""What the visualizations draw. `DrawingBuilder` stands in for the outside drawing class and records what it is told."""


class DrawingBuilder:
    def __init__(self):
        self.n: Set[Any] = set()
        self.e: Set[Any] = set()
        self.f: Set[Any] = set()
        self.nk: Set[Any] = set()
        self.ek: Set[Any] = set()

    def add_node(self, key, label=None, color=None):
        self.n.add((key, label))
        self.nk.add(key)

    def add_edge(self, a, b, label=None, color=None):
        self.e.add((frozenset({a, b}), label))
        self.ek.add(frozenset({a, b}))

    def show(self, name):
        self.f.add(name)


class sample_drawing:
    """C20: a drawn sample shows each of its nodes and edges, and nothing else"""
    target = 'SampleGraph.visualize'
    stand_in = {'Network': 'net'}
    observe = ['string_id', 'name']
    rejects = 'ignore'

    def code(g: SampleGraph):
        net = DrawingBuilder()
        g.visualize()
        return (net.n, net.e, net.f)

    def spec(g: SampleGraph):
        return ({(n.string_id, n.string_id) for n in g.nodes},
                {(frozenset({x.string_id for x in e.endpoints}), str(e.relation)) for e in g.edges},
                {''.join([c for c in g.name if c.isalnum() or c in {'_', '-', '(', ')'}]) + '.html'})


class folded_drawing:
    """C20: a drawn folded graph shows each folded node, each absent declared variable, and each folded edge"""
    target = 'FoldedGraph.visualize'
    stand_in = {'Network': 'net'}
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, k: int, ns: Set[FoldedNode], es: Set[FoldedEdge]):
        net = DrawingBuilder()
        FoldedGraph(p, k, ns, es, 'n').visualize()
        return (net.nk, net.ek)

    def spec(p: SampleGraphComponentsProvider, k: int, ns: Set[FoldedNode], es: Set[FoldedEdge]):
        return ({n.variable for n in ns} | {v for v, xs in p.variables()}, {frozenset(e.endpoints) for e in es})


class folded_drawing_absent:
    """C20: declared variables without a folded node are drawn too"""
    target = 'FoldedGraph.visualize'
    stand_in = {'Network': 'net'}
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, k: int):
        net = DrawingBuilder()
        FoldedGraph(p, k, set({}), set({}), 'n').visualize()
        return net.nk

    def spec(p: SampleGraphComponentsProvider, k: int):
        return {v for v, xs in p.variables()}


class folded_drawing_name:
    """C20: the drawing is written to a file whose name keeps only letters, digits and underscores of the given name"""
    target = 'FoldedGraph.visualize'
    stand_in = {'Network': 'net'}
    observe = ['name']
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, k: int, name: str, m: str):
        net = DrawingBuilder()
        FoldedGraph(p, k, set({}), set({}), name).visualize(m)
        return net.f

    def spec(p: SampleGraphComponentsProvider, k: int, name: str, m: str):
        return {''.join([c for c in (m if m else name) if c.isalnum() or c == '_']) + '.html'}


class active_drawing:
    """C20: a drawn activation graph shows every declared variable once, and each edge"""
    fails = 'ignore'
    target = 'ActivationGraph.visualize'
    stand_in = {'Network': 'net'}
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, k: int, ns: Set[ActiveNode], es: Set[ActiveEdge]):
        net = DrawingBuilder()
        ActivationGraph(p, k, ns, es, 'n').visualize()
        return (net.nk, net.ek)

    def spec(p: SampleGraphComponentsProvider, k: int, ns: Set[ActiveNode], es: Set[ActiveEdge]):
        return ({v for v, xs in p.variables()}, {frozenset(e.endpoints) for e in es})


class active_drawing_name:
    """C20: the drawing is written to a file whose name keeps only letters, digits and underscores of the given name"""
    target = 'ActivationGraph.visualize'
    stand_in = {'Network': 'net'}
    observe = ['name']
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, k: int, name: str, m: str):
        net = DrawingBuilder()
        ActivationGraph(p, k, set({}), set({}), name).visualize(m)
        return net.f

    def spec(p: SampleGraphComponentsProvider, k: int, name: str, m: str):
        return {''.join([c for c in (m if m else name) if c.isalnum() or c == '_']) + '.html'}


class space_drawing:
    """C20: a drawn set of outcomes shows each outcome, under keys of its own"""
    target = 'SampleSpace.visualize_outcomes'
    stand_in = {'Network': 'net'}
    observe = ['string_id']
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        net = DrawingBuilder()
        SampleSpace(p, SampleSet(p, d), 'n', None).visualize_outcomes()
        return net.nk

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return {n.string_id + str(i) for i, o in enumerate(d) for n in o.nodes}

    def spec_2(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return ({list(o.nodes)[0].string_id + str(i) for i, o in enumerate(d)}
                | {n.string_id + str(i) for i, o in enumerate(d) for n in list(o.nodes)[1:]})


class space_drawing_edges:
    """C20: a drawn set of outcomes shows the edges of each outcome between the keys of their endpoints"""
    target = 'SampleSpace.visualize_outcomes'
    stand_in = {'Network': 'net'}
    observe = ['string_id']
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        net = DrawingBuilder()
        SampleSpace(p, SampleSet(p, d), 'n', None).visualize_outcomes()
        return net.e

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return {(frozenset({x.string_id + str(i) for x in e.endpoints}),
                 str(e.relation)) for i, o in enumerate(d) for e in o.edges}

    def spec_2(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return {(frozenset({e.a.string_id + str(i), e.b.string_id + str(i)}), str(e.relation))
                for i, o in enumerate(d) for e in o.edges}


class space_drawing_evidence:
    """C20: the evidence of a conditional graph is drawn under keys of its own"""
    target = 'SampleSpace.visualize_outcomes'
    stand_in = {'Network': 'net'}
    observe = ['string_id']
    rejects = 'ignore'

    def pre(p: SampleGraphComponentsProvider, g: SampleGraph):
        return g.nodes or g.edges

    def code(p: SampleGraphComponentsProvider, g: SampleGraph):
        net = DrawingBuilder()
        SampleSpace(p, SampleSet(p, {}), 'n', g).visualize_outcomes()
        return (net.nk, net.ek)

    def spec(p: SampleGraphComponentsProvider, g: SampleGraph):
        return ({n.string_id + '_query' for n in g.nodes},
                {frozenset({x.string_id + '_query' for x in e.endpoints})
                 for e in g.edges})

    def spec_2(p: SampleGraphComponentsProvider, g: SampleGraph):
        return ({n.string_id + '_query' for n in g.nodes},
                {frozenset({e.a.string_id + '_query', e.b.string_id + '_query'}) for e in g.edges})


class space_drawing_name:
    """C20: the drawing is written to a file whose name keeps only letters, digits and underscores of the given name"""
    target = 'SampleSpace.visualize_outcomes'
    stand_in = {'Network': 'net'}
    observe = ['name', '_name']
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, name: str, m: str):
        net = DrawingBuilder()
        SampleSpace(p, SampleSet(p, {}), name, None).visualize_outcomes(m)
        return net.f

    def spec(p: SampleGraphComponentsProvider, name: str, m: str):
        return {''.join([c for c in (m if m else name) if c.isalnum() or c == '_']) + '.html'}


class sample_default_name:
    """C19: a sample without a name is named after its edges, or nodes, in sorted order"""
    target = 'SampleGraph.__init__'
    observe = ['name']

    def code(p: SampleGraphComponentsProvider, ns: FrozenSet[ValueNode], es: FrozenSet[RelationEdge], m: str):
        return (SampleGraph(p, ns, es, m).name, SampleGraph(p, ns, es, None).name)

    def spec(p: SampleGraphComponentsProvider, ns: FrozenSet[ValueNode], es: FrozenSet[RelationEdge], m: str):
        if es:
            d = '{' + '; '.join(sorted([str(e) for e in es])) + '}'
        else:
            d = '{' + '; '.join(sorted([str(n) for n in ns])) + '}'
        return (m if m else d, d)
