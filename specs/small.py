"""Functions whose closed form is out of reach, decided on graphs of given shape and any content."""


class edges_connected_chain:
    """C08: edges that share values one after the other are connected, whatever the last ones are"""
    target = 'SampleGraphBuilder.is_edges_connected'
    fails = 'ignore'
    rejects = 'ignore'
    unroll = 6
    cut = True

    def code(p: SampleGraphComponentsProvider, r: Any, t: Any, u: Any):
        return (
            SampleGraphBuilder.is_edges_connected(frozenset({(frozenset({('A', 'a'), ('B', 'b')}), r)})),
            SampleGraphBuilder.is_edges_connected(frozenset({(frozenset({('A', 'a'), ('B', 'b')}), r),
                                                             (frozenset({('B', 'b'), ('C', 'c')}), t)})),
            SampleGraphBuilder.is_edges_connected(frozenset({(frozenset({('A', 'a'), ('B', 'b')}), r),
                                                             (frozenset({('C', 'c'), ('D', 'd')}), t)})))

    def spec(p: SampleGraphComponentsProvider, r: Any, t: Any, u: Any):
        return True, True, False


class edges_connected_three:
    """C08: three edges are connected exactly when none is apart from the others"""
    target = 'SampleGraphBuilder.is_edges_connected'
    fails = 'ignore'
    rejects = 'ignore'
    unroll = 6
    cut = True

    def code(p: SampleGraphComponentsProvider, r: Any):
        return (
            SampleGraphBuilder.is_edges_connected(frozenset({(frozenset({('A', 'a'), ('B', 'b')}), r),
                                                             (frozenset({('B', 'b'), ('C', 'c')}), r),
                                                             (frozenset({('C', 'c'), ('D', 'd')}), r)})),
            SampleGraphBuilder.is_edges_connected(frozenset({(frozenset({('A', 'a'), ('B', 'b')}), r),
                                                             (frozenset({('B', 'b'), ('C', 'c')}), r),
                                                             (frozenset({('D', 'd'), ('E', 'e')}), r)})))

    def spec(p: SampleGraphComponentsProvider, r: Any):
        return True, False


class factorized_checked:
    """C17: outcomes are factorized when those that share a pair of variables relate exactly the same pairs"""
    target = 'RelationGraph.is_factorized'
    fails = 'ignore'
    rejects = 'ignore'
    unroll = 4
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, x: Any, y: Any, z: Any, r: Any, t: Any, u: Any, c: int, q: int, n: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('B', y), ValueNode('C', z)}), t)
        m = RelationEdge(frozenset({ValueNode('C', z), ValueNode('D', x)}), u)
        a = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        b = SampleGraph(p, l.endpoints, frozenset({l}), 'y')
        d = SampleGraph(p, m.endpoints, frozenset({m}), 'y')
        e = SampleGraph(p, l.endpoints | m.endpoints, frozenset({l, m}), 'z')
        return (RelationGraph(p, 'n', SampleSet(p, {a: c, b: q, d: n})).is_factorized(),
                RelationGraph(p, 'n', SampleSet(p, {a: c, b: q, e: n})).is_factorized(),
                RelationGraph(p, 'n', SampleSet(p, {a: c, d: q, e: n})).is_factorized(),
                RelationGraph(p, 'n', SampleSet(p, {a: c, e: n})).is_factorized())

    def spec(p: SampleGraphComponentsProvider, x: Any, y: Any, z: Any, r: Any, t: Any, u: Any, c: int, q: int, n: int):
        return True, False, False, True


class factorized_alternatives:
    """C17: alternatives of one factor do not keep a graph from being factorized, an empty outcome does"""
    target = 'RelationGraph.is_factorized'
    fails = 'ignore'
    rejects = 'ignore'
    unroll = 4
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, x: Any, y: Any, z: Any, r: Any, t: Any, c: int, q: int, n: int):
        k = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', 'b'), ValueNode('B', y)}), t)
        m = RelationEdge(frozenset({ValueNode('C', z), ValueNode('D', x)}), t)
        a = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        b = SampleGraph(p, l.endpoints, frozenset({l}), 'y')
        d = SampleGraph(p, m.endpoints, frozenset({m}), 'y')
        e = SampleGraph(p, frozenset(), frozenset(), 'z')
        return (RelationGraph(p, 'n', SampleSet(p, {a: c, b: q})).is_factorized(),
                RelationGraph(p, 'n', SampleSet(p, {a: c, b: q, d: n})).is_factorized(),
                RelationGraph(p, 'n', SampleSet(p, {a: c, e: q})).is_factorized())

    def spec(p: SampleGraphComponentsProvider, x: Any, y: Any, z: Any, r: Any, t: Any, c: int, q: int, n: int):
        return True, True, False


class factorized_singles:
    """C36: single-node outcomes are grouped by their variable, apart from the others"""
    target = 'SampleSet.group_intersecting'
    fails = 'ignore'
    rejects = 'ignore'
    unroll = 4
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, x: Any, y: Any, r: Any, c: int, q: int, n: int):
        k = RelationEdge(frozenset({ValueNode('B', x), ValueNode('C', y)}), r)
        a = SampleGraph(p, frozenset({ValueNode('A', 'a')}), frozenset(), 'x')
        b = SampleGraph(p, frozenset({ValueNode('A', 'b')}), frozenset(), 'x')
        d = SampleGraph(p, frozenset({ValueNode('D', 'd')}), frozenset(), 'x')
        e = SampleGraph(p, k.endpoints, frozenset({k}), 'z')
        f = RelationGraph(p, 'n', SampleSet(p, {a: c, b: q, d: n, e: c + q})).factorized()
        return {g.samples() for g in f}, {x for g in f for x in g.items()}

    def spec(p: SampleGraphComponentsProvider, x: Any, y: Any, r: Any, c: int, q: int, n: int):
        k = RelationEdge(frozenset({ValueNode('B', x), ValueNode('C', y)}), r)
        a = SampleGraph(p, frozenset({ValueNode('A', 'a')}), frozenset(), 'x')
        b = SampleGraph(p, frozenset({ValueNode('A', 'b')}), frozenset(), 'x')
        d = SampleGraph(p, frozenset({ValueNode('D', 'd')}), frozenset(), 'x')
        e = SampleGraph(p, k.endpoints, frozenset({k}), 'z')
        return {frozenset({a, b}), frozenset({d}), frozenset({e})}, {(a, c), (b, q), (d, n), (e, c + q)}


class found_values:
    """C12: the outcomes found for values carry all of them"""
    target = 'SampleSpace.find_for_values'
    fails = 'ignore'
    rejects = 'ignore'
    unroll = 4
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, r: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'b')}), r)
        l = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'c')}), r)
        a = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        b = SampleGraph(p, l.endpoints, frozenset({l}), 'y')
        g = RelationGraph(p, 'n', SampleSet(p, {a: c, b: q}))
        return (g.find_for_values({('A', 'a')}).items(), g.find_for_values({('A', 'a'), ('B', 'c')}).items(),
                g.find_for_values({('A', 'a'), ('C', 'c')}).items(), g.find_for_values({('A', 'c')}).items())

    def spec(p: SampleGraphComponentsProvider, r: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'b')}), r)
        l = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'c')}), r)
        a = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        b = SampleGraph(p, l.endpoints, frozenset({l}), 'y')
        return {(a, c), (b, q)}, {(b, q)}, set(), set()


class conditioned:
    """C12: conditioning keeps the outcomes that contain the evidence and those that share no variable with it"""
    target = 'RelationGraph.conditional_graph'
    fails = 'ignore'
    rejects = 'ignore'
    unroll = 4
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, r: Any, c: int, q: int, n: int):
        k = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'b')}), r)
        l = RelationEdge(frozenset({ValueNode('B', 'c'), ValueNode('D', 'd')}), r)
        m = RelationEdge(frozenset({ValueNode('C', 'a'), ValueNode('D', 'd')}), r)
        a = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        b = SampleGraph(p, l.endpoints, frozenset({l}), 'y')
        d = SampleGraph(p, m.endpoints, frozenset({m}), 'y')
        g = RelationGraph(p, 'n', SampleSet(p, {a: c, b: q, d: n}))
        return g.conditional_graph(a).outcomes.items()

    def spec(p: SampleGraphComponentsProvider, r: Any, c: int, q: int, n: int):
        k = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'b')}), r)
        m = RelationEdge(frozenset({ValueNode('C', 'a'), ValueNode('D', 'd')}), r)
        a = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        d = SampleGraph(p, m.endpoints, frozenset({m}), 'y')
        return {(a, c), (d, n)}
