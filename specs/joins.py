"""Joining, grouping and factoring of outcomes, on few of them."""


class set_can_join:
    """C09: samples can be joined when there are some and their values match"""
    target = 'SampleSet.can_join_samples'
    abstract = {'SampleSet.is_all_values_match': 'bool'}

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return SampleSet(p, d).can_join_samples()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return len(d.keys()) > 0 and SampleSet(p, d).is_all_values_match()


class set_join_one:
    """C35: a joined single set is that set"""
    target = 'SampleSetBuilder.join_sample_set'
    unroll = 1

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return SampleSetBuilder.join_sample_set([SampleSet(p, d)]).items()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return {(s, d[s]) for s in d}


class set_join_three:
    """C11,C35: joined sets add up the counts of each sample"""
    target = 'SampleSetBuilder.join_sample_set'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 3

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int],
             f: Dict[SampleGraph, int]):
        return SampleSetBuilder.join_sample_set([SampleSet(p, d), SampleSet(p, e), SampleSet(p, f)]).items()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int],
             f: Dict[SampleGraph, int]):
        return {(s, d.get(s, 0) + e.get(s, 0) + f.get(s, 0)) for s in d.keys() | e.keys() | f.keys()}


class joined_sample_two:
    """C35: the joined sample of two samples has the nodes and edges of both, and comes with both counts"""
    target = 'SampleSet.make_joined_sample'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 2
    cut = True

    def pre(p: SampleGraphComponentsProvider, k: RelationEdge, l: RelationEdge, c: int, q: int):
        return SampleGraph(p, k.endpoints, frozenset({k}), 'x') != SampleGraph(p, l.endpoints, frozenset({l}), 'y')

    def code(p: SampleGraphComponentsProvider, k: RelationEdge, l: RelationEdge, c: int, q: int):
        s = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        t = SampleGraph(p, l.endpoints, frozenset({l}), 'y')
        g, n = SampleSet(p, {s: c, t: q}).make_joined_sample()
        return (g.nodes, g.edges, len(n), sum(n))

    def spec(p: SampleGraphComponentsProvider, k: RelationEdge, l: RelationEdge, c: int, q: int):
        return (k.endpoints | l.endpoints, {k, l}, 2, c + q)


class group_one:
    """C36: a single outcome is grouped under the variables its edges join, with its count"""
    target = 'SampleSet.group_intersecting'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 1

    def code(p: SampleGraphComponentsProvider, k: RelationEdge, c: int):
        s = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        g = SampleSet(p, {s: c}).group_intersecting()
        return {v: g[v].items() for v in g}

    def spec(p: SampleGraphComponentsProvider, k: RelationEdge, c: int):
        s = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        return {frozenset(n.variable for n in k.endpoints): {(s, c)}}


class group_single:
    """C36: a single node outcome is a group of its own, under its variable whatever that is"""
    target = 'SampleSet.group_intersecting'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 1

    def code(p: SampleGraphComponentsProvider, n: ValueNode, c: int):
        s = SampleGraph(p, frozenset({n}), frozenset({}), 'x')
        g = SampleSet(p, {s: c}).group_intersecting()
        return {v: g[v].items() for v in g}

    def spec(p: SampleGraphComponentsProvider, n: ValueNode, c: int):
        s = SampleGraph(p, frozenset({n}), frozenset({}), 'x')
        return {frozenset({n.variable}): {(s, c)}}


class group_same:
    """C36: outcomes relating the same variables share a group"""
    target = 'SampleSet.group_intersecting'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 2

    def pre(p: SampleGraphComponentsProvider, x: Any, y: Any, r: Any, z: Any, w: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', z), ValueNode('B', w)}), t)
        return k != l and (SampleGraph(p, k.endpoints, frozenset({k}), 'x') !=
                           SampleGraph(p, l.endpoints, frozenset({l}), 'y'))

    def code(p: SampleGraphComponentsProvider, x: Any, y: Any, r: Any, z: Any, w: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', z), ValueNode('B', w)}), t)
        g = SampleSet(p, {SampleGraph(p, k.endpoints, frozenset({k}), 'x'): c,
                          SampleGraph(p, l.endpoints, frozenset({l}), 'y'): q}).group_intersecting()
        return {v: {(e, n) for s, n in g[v].items() for e in s.edges} for v in g}

    def spec(p: SampleGraphComponentsProvider, x: Any, y: Any, r: Any, z: Any, w: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', z), ValueNode('B', w)}), t)
        return {frozenset({'A', 'B'}): {(k, c), (l, q)}}


class group_apart:
    """C36: outcomes relating different variables are in different groups"""
    target = 'SampleSet.group_intersecting'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 2

    def pre(p: SampleGraphComponentsProvider, x: Any, y: Any, r: Any, z: Any, w: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', z), ValueNode('C', w)}), t)
        return k != l and (SampleGraph(p, k.endpoints, frozenset({k}), 'x') !=
                           SampleGraph(p, l.endpoints, frozenset({l}), 'y'))

    def code(p: SampleGraphComponentsProvider, x: Any, y: Any, r: Any, z: Any, w: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', z), ValueNode('C', w)}), t)
        g = SampleSet(p, {SampleGraph(p, k.endpoints, frozenset({k}), 'x'): c,
                          SampleGraph(p, l.endpoints, frozenset({l}), 'y'): q}).group_intersecting()
        return {v: {(e, n) for s, n in g[v].items() for e in s.edges} for v in g}

    def spec(p: SampleGraphComponentsProvider, x: Any, y: Any, r: Any, z: Any, w: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', z), ValueNode('C', w)}), t)
        return {frozenset({'A', 'B'}): {(k, c)}, frozenset({'A', 'C'}): {(l, q)}}


class group_chain:
    """C36: an outcome relating what two others relate brings them into one group"""
    target = 'SampleSet.group_intersecting'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 3

    def pre(p: SampleGraphComponentsProvider, m: Any, n: Any, o: Any, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', m), ValueNode('B', n)}), r)
        l = RelationEdge(frozenset({ValueNode('A', m), ValueNode('C', o)}), r)
        h = RelationEdge(frozenset({ValueNode('A', m), ValueNode('B', n)}), t)
        return k != l and k != h and h != l and (
            SampleGraph(p, k.endpoints | l.endpoints, frozenset({k, l}), 'x') !=
            SampleGraph(p, h.endpoints, frozenset({h}), 'y'))

    def code(p: SampleGraphComponentsProvider, m: Any, n: Any, o: Any, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', m), ValueNode('B', n)}), r)
        l = RelationEdge(frozenset({ValueNode('A', m), ValueNode('C', o)}), r)
        h = RelationEdge(frozenset({ValueNode('A', m), ValueNode('B', n)}), t)
        g = SampleSet(p, {SampleGraph(p, k.endpoints | l.endpoints, frozenset({k, l}), 'x'): c,
                          SampleGraph(p, h.endpoints, frozenset({h}), 'y'): q}).group_intersecting()
        return {v: {(e, n) for s, n in g[v].items() for e in s.edges} for v in g}

    def spec(p: SampleGraphComponentsProvider, m: Any, n: Any, o: Any, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', m), ValueNode('B', n)}), r)
        l = RelationEdge(frozenset({ValueNode('A', m), ValueNode('C', o)}), r)
        h = RelationEdge(frozenset({ValueNode('A', m), ValueNode('B', n)}), t)
        return {frozenset({'A', 'B', 'C'}): {(k, c), (l, c), (h, q)}}


class factorized_one:
    """C36: a single outcome is one factor"""
    target = 'SampleSpace.factorized'
    fails = 'ignore'

    def pre(p: SampleGraphComponentsProvider, s: SampleGraph, c: int):
        return bool(s.nodes)

    def code(p: SampleGraphComponentsProvider, s: SampleGraph, c: int):
        return {f.items() for f in RelationGraph(p, 'n', SampleSet(p, {s: c})).factorized()}

    def spec(p: SampleGraphComponentsProvider, s: SampleGraph, c: int):
        return {frozenset({(s, c)})}


class factorized_two:
    """C36: outcomes relating the same variables make one factor, outcomes relating nothing in common two; others are
    refused"""
    target = 'SampleSpace.factorized'
    fails = 'ignore'
    unroll = 2

    def pre(p: SampleGraphComponentsProvider, k: RelationEdge, l: RelationEdge, c: int, q: int):
        return SampleGraph(p, k.endpoints, frozenset({k}), 'x') != SampleGraph(p, l.endpoints, frozenset({l}), 'y')

    def code(p: SampleGraphComponentsProvider, k: RelationEdge, l: RelationEdge, c: int, q: int):
        s = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        t = SampleGraph(p, l.endpoints, frozenset({l}), 'y')
        return {f.items() for f in RelationGraph(p, 'n', SampleSet(p, {s: c, t: q})).factorized()}

    def spec(p: SampleGraphComponentsProvider, k: RelationEdge, l: RelationEdge, c: int, q: int):
        s = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        t = SampleGraph(p, l.endpoints, frozenset({l}), 'y')
        a = frozenset(n.variable for n in k.endpoints)
        b = frozenset(n.variable for n in l.endpoints)
        return {frozenset({(s, c), (t, q)})} if a == b else {frozenset({(s, c)}), frozenset({(t, q)})}


class joined_on_other:
    """C35: joining leaves the outcomes without the variable as they are"""
    target = 'RelationGraph.joined_on_variables'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 3
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, x: Any, y: Any, z: Any, w: Any, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('B', z), ValueNode('C', w)}), t)
        g = RelationGraph(p, 'n', SampleSet(p, {SampleGraph(p, k.endpoints, frozenset({k}), 'x'): c,
                                                SampleGraph(p, l.endpoints, frozenset({l}), 'y'): q}))
        return {(s.nodes, s.edges, n) for s, n in g.joined_on_variables({'A'}).outcomes.items()}

    def spec(p: SampleGraphComponentsProvider, x: Any, y: Any, z: Any, w: Any, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('B', z), ValueNode('C', w)}), t)
        return {(k.endpoints, frozenset({k}), c), (l.endpoints, frozenset({l}), q)}


class joined_on_group:
    """C35: outcomes of one group are alternatives: they are not joined with each other"""
    target = 'RelationGraph.joined_on_variables'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 3
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def pre(p: SampleGraphComponentsProvider, x: Any, y: Any, z: Any, w: Any, r: Any, t: Any, c: int, q: int):
        return x != z

    def code(p: SampleGraphComponentsProvider, x: Any, y: Any, z: Any, w: Any, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', z), ValueNode('B', w)}), t)
        g = RelationGraph(p, 'n', SampleSet(p, {SampleGraph(p, k.endpoints, frozenset({k}), 'x'): c,
                                                SampleGraph(p, l.endpoints, frozenset({l}), 'y'): q}))
        return {(s.nodes, s.edges, n) for s, n in g.joined_on_variables({'A'}).outcomes.items()}

    def spec(p: SampleGraphComponentsProvider, x: Any, y: Any, z: Any, w: Any, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', z), ValueNode('B', w)}), t)
        return {(k.endpoints, frozenset({k}), c), (l.endpoints, frozenset({l}), q)}


class joined_all:
    """C35: without variables given, all are joined on"""
    target = 'RelationGraph.joined_on_variables'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 4
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, x: Any, y: Any, w: Any, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', x), ValueNode('C', w)}), t)
        g = RelationGraph(p, 'n', SampleSet(p, {SampleGraph(p, k.endpoints, frozenset({k}), 'x'): c,
                                                SampleGraph(p, l.endpoints, frozenset({l}), 'y'): q}))
        return {(s.nodes, s.edges, n) for s, n in g.joined_on_variables().outcomes.items()}

    def spec(p: SampleGraphComponentsProvider, x: Any, y: Any, w: Any, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', x), ValueNode('C', w)}), t)
        return {(k.endpoints | l.endpoints, frozenset({k, l}), c * q)}


class make_joined_two:
    """C35: a factorised graph of two factors joins on the variable they share, with the product of the counts"""
    target = 'RelationGraph.make_joined'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 4
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'b')}), r)
        l = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('C', 'c')}), t)
        g = RelationGraph(p, 'n', SampleSet(p, {SampleGraph(p, k.endpoints, frozenset({k}), 'x'): c,
                                                SampleGraph(p, l.endpoints, frozenset({l}), 'y'): q}))
        return {(s.nodes, s.edges, n) for s, n in g.make_joined().outcomes.items()}

    def spec(p: SampleGraphComponentsProvider, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'b')}), r)
        l = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('C', 'c')}), t)
        return {(k.endpoints | l.endpoints, frozenset({k, l}), c * q)}


class make_joined_alternatives:
    """C35: with alternatives in one factor, there is a joined outcome for each that agrees on the shared variable"""
    target = 'RelationGraph.make_joined'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 4
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, r: Any, t: Any, c: int, q: int, n: int):
        k = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'b')}), r)
        l = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('C', 'c')}), t)
        m = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('C', 'd')}), t)
        g = RelationGraph(p, 'n', SampleSet(p, {SampleGraph(p, k.endpoints, frozenset({k}), 'x'): c,
                                                SampleGraph(p, l.endpoints, frozenset({l}), 'y'): q,
                                                SampleGraph(p, m.endpoints, frozenset({m}), 'z'): n}))
        return {(s.nodes, s.edges, n) for s, n in g.make_joined().outcomes.items()}

    def spec(p: SampleGraphComponentsProvider, r: Any, t: Any, c: int, q: int, n: int):
        k = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'b')}), r)
        l = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('C', 'c')}), t)
        m = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('C', 'd')}), t)
        return {(k.endpoints | l.endpoints, frozenset({k, l}), c * q), (k.endpoints | m.endpoints, frozenset({k, m}), c * n)}


class joined_alternatives:
    """C35: with alternatives in one group, there is a joined outcome for each that agrees on the shared variable"""
    target = 'RelationGraph.joined_on_variables'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 4
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, r: Any, t: Any, c: int, q: int, n: int):
        k = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'b')}), r)
        l = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('C', 'c')}), t)
        m = RelationEdge(frozenset({ValueNode('A', 'd'), ValueNode('C', 'd')}), t)
        o = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('C', 'e')}), t)
        g = RelationGraph(p, 'n', SampleSet(p, {SampleGraph(p, k.endpoints, frozenset({k}), 'x'): c,
                                                SampleGraph(p, l.endpoints, frozenset({l}), 'y'): q,
                                                SampleGraph(p, m.endpoints, frozenset({m}), 'w'): q,
                                                SampleGraph(p, o.endpoints, frozenset({o}), 'z'): n}))
        return {(s.nodes, s.edges, n) for s, n in g.joined_on_variables({'A'}).outcomes.items()}

    def spec(p: SampleGraphComponentsProvider, r: Any, t: Any, c: int, q: int, n: int):
        k = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('B', 'b')}), r)
        l = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('C', 'c')}), t)
        o = RelationEdge(frozenset({ValueNode('A', 'a'), ValueNode('C', 'e')}), t)
        return {(k.endpoints | l.endpoints, frozenset({k, l}), c * q), (k.endpoints | o.endpoints, frozenset({k, o}), c * n)}


class joined_on_one:
    """C35: joining a single outcome leaves it with its count"""
    target = 'RelationGraph.joined_on_variables'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 2
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, x: Any, y: Any, r: Any, c: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        s = SampleGraph(p, k.endpoints, frozenset({k}), 'x')
        return {(t.nodes, t.edges, n) for t, n in
                RelationGraph(p, 'n', SampleSet(p, {s: c})).joined_on_variables({'A'}).outcomes.items()}

    def spec(p: SampleGraphComponentsProvider, x: Any, y: Any, r: Any, c: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        return {(k.endpoints, frozenset({k}), c)}


class joined_on_two:
    """C35: outcomes of different groups that agree on the variable are joined, with the product of their counts"""
    target = 'RelationGraph.joined_on_variables'
    rejects = 'ignore'
    fails = 'ignore'
    unroll = 3
    cut = True
    fieldwise = ['ValueNode', 'RelationEdge', 'SampleGraph', 'SampleSet']

    def code(p: SampleGraphComponentsProvider, x: Any, y: Any, z: Any, w: Any, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', z), ValueNode('C', w)}), t)
        g = RelationGraph(p, 'n', SampleSet(p, {SampleGraph(p, k.endpoints, frozenset({k}), 'x'): c,
                                                SampleGraph(p, l.endpoints, frozenset({l}), 'y'): q}))
        return {(s.nodes, s.edges, n) for s, n in g.joined_on_variables({'A'}).outcomes.items()}

    def spec(p: SampleGraphComponentsProvider, x: Any, y: Any, z: Any, w: Any, r: Any, t: Any, c: int, q: int):
        k = RelationEdge(frozenset({ValueNode('A', x), ValueNode('B', y)}), r)
        l = RelationEdge(frozenset({ValueNode('A', z), ValueNode('C', w)}), t)
        return {(k.endpoints | l.endpoints, frozenset({k, l}), c * q)} if x == z else set()
