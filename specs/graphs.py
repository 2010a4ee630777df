"""Single samples: what a finished sample graph reports about itself, and what its builder accepts."""


class graph_content:
    """C16: a finished sample holds exactly the given nodes and edges"""
    target = 'SampleGraph.__init__'

    def code(p: SampleGraphComponentsProvider, nodes: FrozenSet[ValueNode], edges: FrozenSet[RelationEdge]):
        g = SampleGraph(p, nodes, edges, 'n')
        return (g.nodes, g.edges, g.included_variables, g.is_single_node, g.is_k_0, g.hash)

    def spec(p: SampleGraphComponentsProvider, nodes: FrozenSet[ValueNode], edges: FrozenSet[RelationEdge]):
        return (nodes, edges, {n.variable for n in nodes}, not edges, not nodes and not edges, nodes | edges)


class graph_values:
    """C16: values() is the set of (variable, value) of its nodes"""
    target = 'SampleGraph.values'

    def code(g: SampleGraph):
        return g.values()

    def spec(g: SampleGraph):
        return {(n.variable, n.value) for n in g.nodes}


class graph_have_value:
    """C16: have_value / have_variable are membership of the content"""
    target = 'SampleGraph.have_value'

    def code(g: SampleGraph, v: Any, x: Any):
        return (g.have_value(v, x), g.have_variable(v))

    def spec(g: SampleGraph, v: Any, x: Any):
        return (any(n.variable == v and n.value == x for n in g.nodes), any(n.variable == v for n in g.nodes))


class graph_value_for_variable_none:
    """C16: a variable outside the sample has no value"""
    target = 'SampleGraph.value_for_variable'

    def pre(g: SampleGraph, v: Any):
        return all(n.variable != v for n in g.nodes)

    def code(g: SampleGraph, v: Any):
        return g.value_for_variable(v)

    def spec(g: SampleGraph, v: Any):
        return None


class graph_value_for_variable:
    """C16: the value reported for a variable is the value of the node carrying it"""
    target = 'SampleGraph.value_for_variable'

    def code(p: SampleGraphComponentsProvider, n: ValueNode, v: Any):
        return SampleGraph(p, frozenset({n}), frozenset({}), 'n').value_for_variable(v)

    def spec(p: SampleGraphComponentsProvider, n: ValueNode, v: Any):
        return n.value if n.variable == v else None


class graph_value_for_variable_two:
    """C16: the value reported for a variable does not depend on the other nodes"""
    target = 'SampleGraph.value_for_variable'

    def pre(p: SampleGraphComponentsProvider, a: ValueNode, b: ValueNode, v: Any):
        return a.variable != b.variable

    def code(p: SampleGraphComponentsProvider, a: ValueNode, b: ValueNode, v: Any):
        return SampleGraph(p, frozenset({a, b}), frozenset({}), 'n').value_for_variable(v)

    def spec(p: SampleGraphComponentsProvider, a: ValueNode, b: ValueNode, v: Any):
        if a.variable == v:
            return a.value
        if b.variable == v:
            return b.value
        return None


class graph_subgraph:
    """C16: subgraph means all nodes and all edges are contained"""
    target = 'SampleGraph.is_subgraph'

    def code(p: SampleGraphComponentsProvider, n1: FrozenSet[ValueNode], e1: FrozenSet[RelationEdge],
             n2: FrozenSet[ValueNode], e2: FrozenSet[RelationEdge]):
        return SampleGraph(p, n1, e1, 'n').is_subgraph(SampleGraph(p, n2, e2, 'm'))

    def spec(p: SampleGraphComponentsProvider, n1: FrozenSet[ValueNode], e1: FrozenSet[RelationEdge],
             n2: FrozenSet[ValueNode], e2: FrozenSet[RelationEdge]):
        return all(n in n2 for n in n1) and all(e in e2 for e in e1)


class graph_equality:
    """C03: two samples are equal exactly when they have the same nodes and edges"""
    target = 'SampleGraph.__eq__'

    def code(p: SampleGraphComponentsProvider, n1: FrozenSet[ValueNode], e1: FrozenSet[RelationEdge],
             n2: FrozenSet[ValueNode], e2: FrozenSet[RelationEdge]):
        return SampleGraph(p, n1, e1, 'n').__eq__(SampleGraph(p, n2, e2, 'm'))

    def spec(p: SampleGraphComponentsProvider, n1: FrozenSet[ValueNode], e1: FrozenSet[RelationEdge],
             n2: FrozenSet[ValueNode], e2: FrozenSet[RelationEdge]):
        return n1 == n2 and e1 == e2


class graph_similarity:
    """C15: similarity is shared content over united content"""
    target = 'SampleGraph.similarity'

    def code(p: SampleGraphComponentsProvider, n1: FrozenSet[ValueNode], e1: FrozenSet[RelationEdge],
             n2: FrozenSet[ValueNode], e2: FrozenSet[RelationEdge]):
        return SampleGraph(p, n1, e1, 'n').similarity(SampleGraph(p, n2, e2, 'm'))

    def spec(p: SampleGraphComponentsProvider, n1: FrozenSet[ValueNode], e1: FrozenSet[RelationEdge],
             n2: FrozenSet[ValueNode], e2: FrozenSet[RelationEdge]):
        a = n1 | e1
        b = n2 | e2
        return len(a & b) / len(a | b) if a | b else 1.0


class graph_edges_view:
    """C04: the plain edge view names every edge by its endpoint values and relation"""
    target = 'SampleGraph.edges_set_view'

    def pre(g: SampleGraph):
        return bool(g.edges)

    def code(g: SampleGraph):
        return g.edges_set_view()

    def spec(g: SampleGraph):
        return {(frozenset((n.variable, n.value) for n in e.endpoints), e.relation) for e in g.edges}


class graph_edges_view_single:
    """C04: the plain view of a single node sample is its variable and value, of an empty one None"""
    target = 'SampleGraph.edges_set_view'

    def code(p: SampleGraphComponentsProvider, n: ValueNode):
        return (SampleGraph(p, frozenset({n}), frozenset({}), 'n').edges_set_view(),
                SampleGraph(p, frozenset({}), frozenset({}), 'n').edges_set_view())

    def spec(p: SampleGraphComponentsProvider, n: ValueNode):
        return ((n.variable, n.value), None)


class graph_builder_roundtrip:
    """C04: a builder made from a sample rebuilds the same sample"""
    target = 'SampleGraph.builder'

    def pre(p: SampleGraphComponentsProvider, n: FrozenSet[ValueNode], e: FrozenSet[RelationEdge]):
        return bool(n)

    def code(p: SampleGraphComponentsProvider, n: FrozenSet[ValueNode], e: FrozenSet[RelationEdge]):
        g = SampleGraph(p, n, e, 'x').builder().build()
        return (g.nodes, g.edges, g.is_compatible(p))

    def spec(p: SampleGraphComponentsProvider, n: FrozenSet[ValueNode], e: FrozenSet[RelationEdge]):
        return (n, e, True)


class graph_neighbors:
    """C16: neighbours of a node are the opposite ends of the selected incident edges"""
    target = 'SampleGraph.neighboring_values'
    rejects = 'ignore'

    def code(g: SampleGraph, c: ValueNode, f: Set[Any]):
        return g.neighboring_values(c, f)

    def spec(g: SampleGraph, c: ValueNode, f: Set[Any]):
        return {e.opposite_endpoint(c): e for e in g.edges if c in e.endpoints and (not f or e.relation in f)}


class graph_belt:
    """C16: the belt holds the edges leaving the centre, grouped by the node they lead to"""
    fails = 'ignore'
    target = 'SampleGraph.belt_nodes'
    rejects = 'ignore'

    def code(g: SampleGraph, c: Set[ValueNode], f: Set[Any]):
        return g.belt_nodes(c, f)

    def spec(g: SampleGraph, c: Set[ValueNode], f: Set[Any]):
        sel = {e for e in g.edges if (not f or e.relation in f) and len(e.endpoints - c) == 1}
        return {n: {e for e in sel if next(iter(e.endpoints - c)) == n} for n in {next(iter(e.endpoints - c)) for e in sel}}


class graph_belt_far:
    """C16: an edge that touches no centre node is not in the belt"""
    target = 'SampleGraph.belt_nodes'
    unroll = 1
    rejects = 'ignore'

    def pre(p: SampleGraphComponentsProvider, a: ValueNode, b: ValueNode, m: ValueNode, r: Any, f: Set[Any]):
        return a != b and a != m and b != m

    def code(p: SampleGraphComponentsProvider, a: ValueNode, b: ValueNode, m: ValueNode, r: Any, f: Set[Any]):
        k = RelationEdge(frozenset({a, b}), r)
        return set(SampleGraph(p, k.endpoints, frozenset({k}), 'x').belt_nodes({m}, f))

    def spec(p: SampleGraphComponentsProvider, a: ValueNode, b: ValueNode, m: ValueNode, r: Any, f: Set[Any]):
        return set()


class graph_external:
    """C16: the external nodes are the belt and, beyond it, the external nodes of the centre grown by the belt"""
    target = 'SampleGraph.external_nodes'
    rejects = 'ignore'
    trust_asserts = True
    abstract = {'SampleGraph.external_nodes': 'Dict[ValueNode, Set[RelationEdge]]',
                'SampleGraph.belt_nodes': 'Dict[ValueNode, Set[RelationEdge]]'}
    once = ['SampleGraph.external_nodes']

    def code(g: SampleGraph, c: Set[ValueNode], f: Set[Any]):
        return g.external_nodes(c, f)

    def spec(g: SampleGraph, c: Set[ValueNode], f: Set[Any]):
        b = g.belt_nodes(c, f)
        x = g.external_nodes(c | set(b), f)
        if not b:
            return {}
        return {n: (b[n] | x[n] if n in x else b[n]) if n in b else x[n] for n in set(b) | set(x)}


class graph_subgraph_hash:
    """C16: the restriction to variables keeps exactly the nodes and edges inside them"""
    target = 'SampleGraph.variables_subgraph_hash'

    def code(g: SampleGraph, vs: Set[Any]):
        return g.variables_subgraph_hash(vs)

    def spec(g: SampleGraph, vs: Set[Any]):
        return {n for n in g.nodes if n.variable in vs} | \
               {e for e in g.edges if all(n.variable in vs for n in e.endpoints)}


class graph_endpoint_variables:
    """C16: endpoint variables of every edge"""
    target = 'SampleGraph.edges_endpoint_variables'

    def code(g: SampleGraph):
        return g.edges_endpoint_variables()

    def spec(g: SampleGraph):
        return {frozenset(n.variable for n in e.endpoints) for e in g.edges}


class graph_single_variable:
    """C16: the variable of a single node sample; refused for samples with edges"""
    target = 'SampleGraph.single_node_variable'

    def code(p: SampleGraphComponentsProvider, n: ValueNode):
        return SampleGraph(p, frozenset({n}), frozenset({}), 'x').single_node_variable()

    def spec(p: SampleGraphComponentsProvider, n: ValueNode):
        return n.variable


class graph_single_variable_refused:
    """C16: the single node accessor refuses samples with edges"""
    target = 'SampleGraph.single_node_variable'
    rejects = 'atleast'

    def code(g: SampleGraph):
        g.single_node_variable()

    def spec(g: SampleGraph):
        assert not g.edges


def graph_replaced(p: SampleGraphComponentsProvider, n: FrozenSet[ValueNode], e: FrozenSet[RelationEdge],
                   r: Dict[Any, Any]):
    return ({(p.get_node(x.variable, r[x.variable]) if x.variable in r else x) for x in n},
            {(p.get_edge(frozenset((p.get_node(x.variable, r[x.variable]) if x.variable in r else x)
                                   for x in k.endpoints), k.relation)
              if any(x.variable in r for x in k.endpoints) else k) for k in e})


class graph_replace:
    """C18: replacing values rewrites exactly the nodes of the named variables"""
    target = 'SampleGraph.transform_with_replaced_values'
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, n: FrozenSet[ValueNode], e: FrozenSet[RelationEdge], r: Dict[Any, Any]):
        return SampleGraph(p, n, e, 'x').transform_with_replaced_values(r).nodes

    def spec(p: SampleGraphComponentsProvider, n: FrozenSet[ValueNode], e: FrozenSet[RelationEdge], r: Dict[Any, Any]):
        m, f = graph_replaced(p, n, e, r)
        return n if (m == n and f == e) else m


class graph_replace_edges:
    """C18: replacing values rewrites exactly the edges touching the named variables, keeping their relation"""
    target = 'SampleGraph.transform_with_replaced_values'
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, n: FrozenSet[ValueNode], e: FrozenSet[RelationEdge], r: Dict[Any, Any]):
        return SampleGraph(p, n, e, 'x').transform_with_replaced_values(r).edges

    def spec(p: SampleGraphComponentsProvider, n: FrozenSet[ValueNode], e: FrozenSet[RelationEdge], r: Dict[Any, Any]):
        m, f = graph_replaced(p, n, e, r)
        return e if (m == n and f == e) else f


class graph_compatible:
    """C07: compatibility is identity of the vocabulary"""
    target = 'SampleGraph.is_compatible'

    def code(p: SampleGraphComponentsProvider, q: SampleGraphComponentsProvider,
             n: FrozenSet[ValueNode], e: FrozenSet[RelationEdge]):
        return SampleGraph(p, n, e, 'x').is_compatible(q)

    def spec(p: SampleGraphComponentsProvider, q: SampleGraphComponentsProvider,
             n: FrozenSet[ValueNode], e: FrozenSet[RelationEdge]):
        return p is q


class builder_endpoints:
    """C08: an edge joins exactly two nodes of two different variables"""
    target = 'SampleGraphBuilder.validate_endpoints'

    def code(eps: FrozenSet[Tuple[Any, Any]]):
        SampleGraphBuilder.validate_endpoints(eps)

    def spec(eps: FrozenSet[Tuple[Any, Any]]):
        assert len(eps) == 2
        assert len({v for v, x in eps}) == 2


class builder_build:
    """C08: building yields exactly the collected nodes and edges, and needs at least one node"""
    target = 'SampleGraphBuilder.build'

    def code(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge]):
        g = SampleGraphBuilder(p, 'x', n, e).build()
        return (g.nodes, g.edges, g.is_compatible(p))

    def spec(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge]):
        assert n
        return (n, e, True)


class builder_empty:
    """C08: the empty sample has no content"""
    target = 'SampleGraphBuilder.build_empty'

    def code(p: SampleGraphComponentsProvider):
        g = SampleGraphBuilder(p).build_empty()
        return (g.nodes, g.edges, g.is_k_0, g.is_compatible(p))

    def spec(p: SampleGraphComponentsProvider):
        return (set(), set(), True, True)


class builder_single:
    """C05: a single node sample holds the node the vocabulary issues for the given variable and value"""
    target = 'SampleGraphBuilder.build_single_node'
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, v: Any, x: Any):
        g = SampleGraphBuilder(p).build_single_node(v, x)
        return (g.nodes, g.edges, g.is_compatible(p))

    def spec(p: SampleGraphComponentsProvider, v: Any, x: Any):
        return ({p.get_node(v, x)}, set(), True)


class builder_add_relation:
    """C08: a relation is accepted only if it touches the sample and its endpoints are not related yet"""
    fails = 'ignore'
    target = 'SampleGraphBuilder.add_relation'
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge],
             a: Tuple[Any, Any], b: Tuple[Any, Any], r: Any):
        g = SampleGraphBuilder(p, 'x', n, e).add_relation({a, b}, r).build()
        return (g.nodes, g.edges)

    def spec(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge],
             a: Tuple[Any, Any], b: Tuple[Any, Any], r: Any):
        x = {p.get_node(a[0], a[1]), p.get_node(b[0], b[1])}
        return (n | x, e | {p.get_edge(frozenset(x), r)})


class builder_add_relation_gate:
    """C08: a relation is accepted only if it touches the sample and its endpoints are not related yet"""
    target = 'SampleGraphBuilder.add_relation'
    rejects = 'exact'

    def code(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge],
             a: Tuple[Any, Any], b: Tuple[Any, Any], r: Any):
        SampleGraphBuilder(p, 'x', n, e).add_relation({a, b}, r)

    def spec(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge],
             a: Tuple[Any, Any], b: Tuple[Any, Any], r: Any):
        assert a != b
        assert a[0] != b[0]
        x = frozenset({p.get_node(a[0], a[1]), p.get_node(b[0], b[1])})
        p.get_edge(x, r)
        assert any(y in n for y in x) or not n
        assert not any(k.endpoints == x for k in e)


class builder_add_directed:
    """C04: a directed relation remembers which variable is the source and which the target"""
    fails = 'ignore'
    target = 'SampleGraphBuilder.add_directed_relation'
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge],
             a: Tuple[Any, Any], b: Tuple[Any, Any], r: Any):
        g = SampleGraphBuilder(p, 'x', n, e).add_directed_relation(a, b, r).build()
        return (g.nodes, g.edges)

    def spec(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge],
             a: Tuple[Any, Any], b: Tuple[Any, Any], r: Any):
        x = {p.get_node(a[0], a[1]), p.get_node(b[0], b[1])}
        return (n | x, e | {p.get_edge(frozenset(x), DirectedRelation(a[0], b[0], r))})


class builder_can_join:
    """C09: a sample can be joined exactly when no shared pair of endpoints carries another relation"""
    target = 'SampleGraphBuilder.can_sample_be_joined'

    def pre(p: SampleGraphComponentsProvider, n: Set[ValueNode], k: RelationEdge, g: SampleGraph):
        return True

    def code(p: SampleGraphComponentsProvider, n: Set[ValueNode], k: RelationEdge, g: SampleGraph):
        return SampleGraphBuilder(p, 'x', n, {k}).can_sample_be_joined(g)

    def spec(p: SampleGraphComponentsProvider, n: Set[ValueNode], k: RelationEdge, g: SampleGraph):
        assert g.is_compatible(p)
        return all(k.endpoints != x.endpoints or x.relation == k.relation for x in g.edges)


class builder_from_edges:
    """C08: a sample built from an edge holds, besides what was collected, exactly that edge and its nodes"""
    target = 'SampleGraphBuilder.build_from_edges'
    rejects = 'ignore'
    fails = 'ignore'

    def code(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge],
             a: Tuple[Any, Any], b: Tuple[Any, Any], r: Any):
        g = SampleGraphBuilder(p, 'x', n, e).build_from_edges(frozenset({(frozenset({a, b}), r)}), False)
        return (g.nodes, g.edges, g.is_compatible(p))

    def spec(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge],
             a: Tuple[Any, Any], b: Tuple[Any, Any], r: Any):
        x = frozenset({p.get_node(a[0], a[1]), p.get_node(b[0], b[1])})
        return (n | x, e | {p.get_edge(x, r)}, True)


class builder_from_edges_gate:
    """C08: edges are refused when they are not connected, when one does not join two different variables, or when two
    relate the same endpoints"""
    target = 'SampleGraphBuilder.build_from_edges'
    abstract = {'SampleGraphBuilder.is_edges_connected': 'bool'}

    def code(p: SampleGraphComponentsProvider, es: FrozenSet[Tuple[FrozenSet[Tuple[Any, Any]], Any]], c: bool):
        SampleGraphBuilder(p, 'x').build_from_edges(es, c)

    def spec(p: SampleGraphComponentsProvider, es: FrozenSet[Tuple[FrozenSet[Tuple[Any, Any]], Any]], c: bool):
        if c:
            assert SampleGraphBuilder.is_edges_connected(es)
        for ps, r in es:
            assert len(ps) == 2
            assert len({v for v, x in ps}) == 2
            p.get_edge(frozenset({p.get_node(v, x) for v, x in ps}), r)
        assert {p.get_node(v, x) for ps, r in es if len(ps) == 2 if len({v for v, x in ps}) == 2 for v, x in ps}
        assert not any({p.get_node(v, x) for v, x in a[0]} == {p.get_node(v, x) for v, x in b[0]}
                       for a in es for b in es if a != b)


class builder_join_edge:
    """C09: a sample of one edge is joined as it is"""
    unroll = 1
    target = 'SampleGraphBuilder.join_sample'
    rejects = 'ignore'
    fails = 'ignore'

    def code(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge], k: RelationEdge):
        g = SampleGraphBuilder(p, 'x', n, e).join_sample(SampleGraph(p, k.endpoints, frozenset({k}), 'y')).build()
        return (g.nodes, g.edges)

    def spec(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge], k: RelationEdge):
        return (n | k.endpoints, e | {k})


class builder_join_edge_gate:
    """C08,C09: a sample of one edge is refused if it does not touch what is there, relates related endpoints otherwise, or
    brings another value of a variable"""
    unroll = 1
    target = 'SampleGraphBuilder.join_sample'

    def code(p: SampleGraphComponentsProvider, q: SampleGraphComponentsProvider, n: Set[ValueNode], o: RelationEdge,
             k: RelationEdge):
        SampleGraphBuilder(p, 'x', n, {o}).join_sample(SampleGraph(q, k.endpoints, frozenset({k}), 'y'))

    def spec(p: SampleGraphComponentsProvider, q: SampleGraphComponentsProvider, n: Set[ValueNode], o: RelationEdge,
             k: RelationEdge):
        assert p is q
        assert not n or any(m in n for m in k.endpoints)
        assert o.endpoints != k.endpoints or o.relation == k.relation
        assert not any(m.variable == x.variable and m not in n for m in k.endpoints for x in n)


class builder_join_edge_gate_bare:
    """C08,C09: a sample of one edge is refused by a builder without relations if it does not touch its nodes or brings
    another value of a variable"""
    unroll = 1
    target = 'SampleGraphBuilder.join_sample'

    def code(p: SampleGraphComponentsProvider, n: Set[ValueNode], k: RelationEdge):
        SampleGraphBuilder(p, 'x', n).join_sample(SampleGraph(p, k.endpoints, frozenset({k}), 'y'))

    def spec(p: SampleGraphComponentsProvider, n: Set[ValueNode], k: RelationEdge):
        assert not n or any(m in n for m in k.endpoints)
        assert not any(m.variable == x.variable and m not in n for m in k.endpoints for x in n)


class builder_join_single:
    """C08,C09: a single node sample is joined only where its node is already there, or into an empty builder"""
    target = 'SampleGraphBuilder.join_sample'

    def code(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge], m: ValueNode):
        g = SampleGraphBuilder(p, 'x', n, e).join_sample(SampleGraph(p, frozenset({m}), frozenset(), 'y')).build()
        return (g.nodes, g.edges)

    def spec(p: SampleGraphComponentsProvider, n: Set[ValueNode], e: Set[RelationEdge], m: ValueNode):
        assert not n or m in n
        return (n | {m}, e)


class builder_join_two:
    """C09: a sample of two edges is joined whole, the edge that only touches the other one after it"""
    target = 'SampleGraphBuilder.join_sample'
    unroll = 2
    cut = True
    rejects = 'ignore'
    fails = 'ignore'

    def pre(p: SampleGraphComponentsProvider, m: ValueNode, k: RelationEdge, l: RelationEdge):
        return m in k.endpoints and m not in l.endpoints

    def code(p: SampleGraphComponentsProvider, m: ValueNode, k: RelationEdge, l: RelationEdge):
        g = SampleGraphBuilder(p, 'x', {m}).join_sample(
            SampleGraph(p, k.endpoints | l.endpoints, frozenset({k, l}), 'y')).build()
        return (g.nodes, g.edges)

    def spec(p: SampleGraphComponentsProvider, m: ValueNode, k: RelationEdge, l: RelationEdge):
        return ({m} | k.endpoints | l.endpoints, {k, l})


class builder_join_two_back:
    """C09: a sample of two edges is joined whole, the edge that only touches the other one after it"""
    target = 'SampleGraphBuilder.join_sample'
    unroll = 2
    cut = True
    rejects = 'ignore'
    fails = 'ignore'

    def pre(p: SampleGraphComponentsProvider, m: ValueNode, k: RelationEdge, l: RelationEdge):
        return m in l.endpoints and m not in k.endpoints

    def code(p: SampleGraphComponentsProvider, m: ValueNode, k: RelationEdge, l: RelationEdge):
        g = SampleGraphBuilder(p, 'x', {m}).join_sample(
            SampleGraph(p, k.endpoints | l.endpoints, frozenset({k, l}), 'y')).build()
        return (g.nodes, g.edges)

    def spec(p: SampleGraphComponentsProvider, m: ValueNode, k: RelationEdge, l: RelationEdge):
        return ({m} | k.endpoints | l.endpoints, {k, l})


class builder_join_then_can:
    """C08,C09: after a join the relations that came with it rule out other ones between the same endpoints"""
    unroll = 1
    rejects = 'ignore'
    fails = 'ignore'
    target = 'SampleGraphBuilder.join_sample'

    def code(p: SampleGraphComponentsProvider, n: Set[ValueNode], o: RelationEdge, k: RelationEdge, l: RelationEdge):
        b = SampleGraphBuilder(p, 'x', n, {o}).join_sample(SampleGraph(p, k.endpoints, frozenset({k}), 'y'))
        return b.can_sample_be_joined(SampleGraph(p, l.endpoints, frozenset({l}), 'z'))

    def spec(p: SampleGraphComponentsProvider, n: Set[ValueNode], o: RelationEdge, k: RelationEdge, l: RelationEdge):
        return not (l.endpoints == k.endpoints and l.relation != k.relation) and \
            not (l.endpoints == o.endpoints and l.relation != o.relation)


class builder_add_then_can:
    """C08,C09: an added relation rules out other ones between the same endpoints"""
    rejects = 'ignore'
    fails = 'ignore'
    target = 'SampleGraphBuilder.add_relation'

    def code(p: SampleGraphComponentsProvider, a: Any, x: Any, b: Any, y: Any, r: Any, l: RelationEdge):
        g = SampleGraphBuilder(p, 'x').add_relation({(a, x), (b, y)}, r)
        return g.can_sample_be_joined(SampleGraph(p, l.endpoints, frozenset({l}), 'z'))

    def spec(p: SampleGraphComponentsProvider, a: Any, x: Any, b: Any, y: Any, r: Any, l: RelationEdge):
        return not (l.endpoints == {p.get_node(a, x), p.get_node(b, y)} and l.relation != r)
