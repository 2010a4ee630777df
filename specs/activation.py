"""Activation graphs of conditional graphs."""


class activation_nodes:
    """C34: one node per declared variable, marked by the evidence; each value weighs the share of the outcomes that
    hold it, evidence values fully and reached values by the similarity of the outcome to the evidence"""
    fails = 'ignore'
    target = 'ConditionalGraph.activation_graph'
    rejects = 'ignore'
    trust_asserts = True
    abstract = {'SampleGraph.similarity': 'float', 'SampleGraph.external_nodes': 'Dict[ValueNode, Set[RelationEdge]]'}
    plain = ['included_variables']
    atomic_sets = True

    def code(vs: Dict[Any, Set[Any]], rs: Set[Any], d: Dict[SampleGraph, int], g: SampleGraph, rf: Set[Any]):
        p = BuilderComponentsProvider(vs, rs)
        a = ConditionalGraph(p, g, 'n', SampleSet(p, d)).activation_graph(rf)
        return {(n.variable, n.values, n.in_query) for n in a.nodes}

    def spec(vs: Dict[Any, Set[Any]], rs: Set[Any], d: Dict[SampleGraph, int], g: SampleGraph, rf: Set[Any]):
        n = sum(d[s] for s in d)
        return {(v, frozenset(
            (x, sum(d[s] if m in s.nodes and m in g.nodes else d[s] * s.similarity(g) for s in d
                    for m in (s.nodes & g.nodes) | set(s.external_nodes(set(g.nodes), rf))
                    if m.variable == v and m.value == x) / n) for x in vs[v]),
                 v in g.included_variables)
                for v in vs}


class activation_edges:
    """C34: one edge per pair of variables related by the evidence or by an edge that reached values were found by,
    tallying the counts of the outcomes per relation"""
    fails = 'ignore'
    target = 'ConditionalGraph.activation_graph'
    rejects = 'ignore'
    trust_asserts = True
    abstract = {'SampleGraph.similarity': 'float', 'SampleGraph.external_nodes': 'Dict[ValueNode, Set[RelationEdge]]'}
    plain = ['included_variables']
    atomic_sets = True

    def code(vs: Dict[Any, Set[Any]], rs: Set[Any], d: Dict[SampleGraph, int], g: SampleGraph, rf: Set[Any]):
        p = BuilderComponentsProvider(vs, rs)
        a = ConditionalGraph(p, g, 'n', SampleSet(p, d)).activation_graph(rf)
        return {(e.endpoints, e.relations) for e in a.edges}

    def spec(vs: Dict[Any, Set[Any]], rs: Set[Any], d: Dict[SampleGraph, int], g: SampleGraph, rf: Set[Any]):
        x = {s: {e for m in s.external_nodes(set(g.nodes), rf) for e in s.external_nodes(set(g.nodes), rf)[m]}
             for s in d}
        u = {e for s in d for e in g.edges} | {e for s in d for e in x[s]}
        return {(frozenset(n.variable for n in f.endpoints), frozenset(
            (r, sum(d[s] for s in d for h in g.edges if h.relation == r
                    and frozenset(n.variable for n in h.endpoints) == frozenset(n.variable for n in f.endpoints))
             + sum(d[s] for s in d for h in x[s] if h.relation == r
                   and frozenset(n.variable for n in h.endpoints) == frozenset(n.variable for n in f.endpoints)))
            for r in {e.relation for e in u if frozenset(n.variable for n in e.endpoints)
                      == frozenset(n.variable for n in f.endpoints)}))
                for f in u}


class activation_two_outcomes:
    """C34: with evidence of one edge and two outcomes, the edge's relation counts both of them"""
    fails = 'ignore'
    target = 'ConditionalGraph.activation_graph'
    rejects = 'ignore'
    trust_asserts = True
    abstract = {'SampleGraph.similarity': 'float', 'SampleGraph.external_nodes': '={}'}
    plain = ['included_variables']
    unroll = 2

    def pre(p: SampleGraphComponentsProvider, s: SampleGraph, t: SampleGraph, c: int, q: int, k: RelationEdge):
        return s != t

    def code(p: SampleGraphComponentsProvider, s: SampleGraph, t: SampleGraph, c: int, q: int, k: RelationEdge):
        g = SampleGraph(p, k.endpoints, frozenset({k}), 'e')
        a = ConditionalGraph(p, g, 'n', SampleSet(p, {s: c, t: q})).activation_graph(None)
        return {(e.endpoints, e.relations) for e in a.edges}

    def spec(p: SampleGraphComponentsProvider, s: SampleGraph, t: SampleGraph, c: int, q: int, k: RelationEdge):
        return {(frozenset(n.variable for n in k.endpoints), frozenset({(k.relation, c + q)}))}


class activation_weight_two_outcomes:
    """C34: with evidence of one node and two outcomes, its value weighs the share of the outcomes that hold it"""
    fails = 'ignore'
    target = 'ConditionalGraph.activation_graph'
    rejects = 'ignore'
    trust_asserts = True
    abstract = {'SampleGraph.similarity': 'float', 'SampleGraph.external_nodes': '={}'}
    plain = ['included_variables']
    unroll = 2

    def pre(v: Any, x: Any, rs: Set[Any], s: SampleGraph, t: SampleGraph, c: int, q: int):
        return s != t

    def code(v: Any, x: Any, rs: Set[Any], s: SampleGraph, t: SampleGraph, c: int, q: int):
        p = BuilderComponentsProvider({v: {x}}, rs)
        m = p.get_node(v, x)
        g = SampleGraph(p, frozenset({m}), frozenset(), 'e')
        a = ConditionalGraph(p, g, 'n', SampleSet(p, {s: c, t: q})).activation_graph(None)
        return {(n.variable, n.values) for n in a.nodes}

    def spec(v: Any, x: Any, rs: Set[Any], s: SampleGraph, t: SampleGraph, c: int, q: int):
        m = BuilderComponentsProvider({v: {x}}, rs).get_node(v, x)
        return {(v, frozenset({(x, ((c if m in s.nodes else 0) + (q if m in t.nodes else 0)) / (c + q))}))}
