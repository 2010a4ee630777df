"""Sample spaces and relation graphs."""


class space_find:
    """C12: the outcomes found for values are exactly those carrying all of them, with their counts"""
    target = 'SampleSpace.find_for_values'
    rejects = 'atmost'

    def pre(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], vs: Set[Tuple[Any, Any]]):
        return all(s.is_compatible(p) for s in d)

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], vs: Set[Tuple[Any, Any]]):
        return SampleSpace(p, SampleSet(p, d), 'n', None).find_for_values(vs).items()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], vs: Set[Tuple[Any, Any]]):
        return {(s, d[s]) for s in d if all(any(n.variable == v and n.value == x for n in s.nodes) for v, x in vs)}


class graph_conditioning:
    """C12: conditioning keeps exactly the outcomes containing the evidence or sharing no variable with it"""
    target = 'RelationGraph.conditional_graph'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], n: FrozenSet[ValueNode],
             e: FrozenSet[RelationEdge]):
        ev = SampleGraph(p, n, e, 'e')
        c = RelationGraph(p, 'n', SampleSet(p, d)).conditional_graph(ev)
        return (c.outcomes.items(), c.evidence.nodes, c.evidence.edges)

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], n: FrozenSet[ValueNode],
             e: FrozenSet[RelationEdge]):
        return ({(s, d[s]) for s in d if
                 (all(x in s.nodes for x in n) and all(x in s.edges for x in e))
                 or not any(x.variable == y.variable for x in n for y in s.nodes)}, n, e)


class conditioning_gate:
    """C07: evidence of another vocabulary is refused"""
    target = 'RelationGraph.conditional_graph'
    rejects = 'atleast'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], ev: SampleGraph):
        RelationGraph(p, 'n', SampleSet(p, d)).conditional_graph(ev)

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], ev: SampleGraph):
        assert ev.is_compatible(p)


class space_included:
    """C16: included variables, values and relations are exactly those occurring in outcomes"""
    target = 'SampleSpace.included_variables'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        x = SampleSpace(p, SampleSet(p, d), 'n', None)
        return (x.included_variables(), x.included_relations())

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return ({(v, frozenset(n.value for s in d for n in s.nodes if n.variable == v))
                 for v in {n.variable for s in d for n in s.nodes}},
                {e.relation for s in d for e in s.edges})


class space_edge_sets:
    """C04: outcomes as edge sets pair every outcome's plain view with its count"""
    target = 'SampleSpace.outcomes_as_edges_sets'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return SampleSpace(p, SampleSet(p, d), 'n', None).outcomes_as_edges_sets()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return {(s.edges_set_view(), d[s]) for s in d}


class space_marginals:
    """C13: a marginal gives each observed value its share of the counts of outcomes carrying the variable"""
    target = 'SampleSpace.marginal_variables_probability'
    rejects = 'ignore'
    abstract = {'SampleGraph.value_for_variable': 'Any'}
    plain = ['included_variables']
    trust_asserts = True

    def pre(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], vs: Set[Any]):
        return bool(vs)

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], vs: Set[Any]):
        return SampleSpace(p, SampleSet(p, d), 'n', None).marginal_variables_probability(vs)

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], vs: Set[Any]):
        return {v: {x: sum(d[s] for s in d if v in s.included_variables and s.value_for_variable(v) == x)
                    / sum(d[s] for s in d if v in s.included_variables)
                    for x in {s.value_for_variable(v) for s in d if v in s.included_variables}}
                for v in {v for s in d for v in s.included_variables if v in vs}}


class space_marginals_all:
    """C13: without a selection every declared variable that occurs is marginalised"""
    fails = 'ignore'
    target = 'SampleSpace.marginal_variables_probability'
    rejects = 'ignore'
    abstract = {'SampleGraph.value_for_variable': 'Any'}
    plain = ['included_variables']
    trust_asserts = True

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return (set(SampleSpace(p, SampleSet(p, d), 'n', None).marginal_variables_probability().keys()),
                set(SampleSpace(p, SampleSet(p, d), 'n', None).marginal_variables_probability(set()).keys()))

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return ({v for s in d for v in s.included_variables if v in {w for w, x in p.variables()}},
                {v for s in d for v in s.included_variables if v in {w for w, x in p.variables()}})


class space_marginals_unobserved:
    """C13: with unobserved values the shares are over all counts and the rest is the unobserved share"""
    target = 'SampleSpace.marginal_variables_probability'
    rejects = 'ignore'
    abstract = {'SampleGraph.value_for_variable': 'Any'}
    plain = ['included_variables']
    trust_asserts = True

    def pre(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], vs: Set[Any]):
        return bool(vs)

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], vs: Set[Any]):
        return SampleSpace(p, SampleSet(p, d), 'n', None).marginal_variables_probability(vs, True)

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], vs: Set[Any]):
        n = sum(d[s] for s in d)
        return {v: {x: (n - sum(d[s] for s in d if v in s.included_variables)) / n if x == 'u' else
                    sum(d[s] for s in d if v in s.included_variables and s.value_for_variable(v) == x) / n
                    for x in {s.value_for_variable(v) for s in d if v in s.included_variables} | {'u'}}
                for v in {v for s in d for v in s.included_variables if v in vs}}


class space_folded_nodes:
    """C14: the folded graph has a node per occurring variable tallying the counts of its value nodes"""
    fails = 'ignore'
    target = 'SampleSpace.folded_graph'
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        f = SampleSpace(p, SampleSet(p, d), 'n', None).folded_graph()
        return ({(n.variable, n.value_nodes) for n in f.nodes}, f.number_of_outcomes)

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return ({(v, frozenset((n, sum(d[t] for t in d if n in t.nodes))
                               for s in d for n in s.nodes if n.variable == v))
                 for v in {n.variable for s in d for n in s.nodes}}, sum(d[s] for s in d))


class space_folded_edges:
    """C14: the folded graph has an edge per related pair of variables tallying the counts of its relation edges"""
    fails = 'ignore'
    target = 'SampleSpace.folded_graph'
    rejects = 'ignore'
    trust_asserts = True

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        f = SampleSpace(p, SampleSet(p, d), 'n', None).folded_graph()
        return {(n.endpoints, n.relation_edges) for n in f.edges}

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return {(frozenset(n.variable for n in g.endpoints),
                 frozenset((e, sum(d[t] for t in d if e in t.edges))
                           for s in d for e in s.edges
                           if frozenset(n.variable for n in e.endpoints) == frozenset(n.variable for n in g.endpoints)))
                for h in d for g in h.edges}

    def spec_2(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return {(k, frozenset((e, sum(d[t] for t in d if e in t.edges))
                              for s in d for e in s.edges if frozenset(n.variable for n in e.endpoints) == k))
                for k in {frozenset(n.variable for n in e.endpoints) for s in d for e in s.edges}}


class space_folded_values:
    """C14: folded nodes know the declared values and the number of outcomes, so the unobserved count is exact"""
    fails = 'ignore'
    target = 'SampleSpace.folded_graph'
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        f = SampleSpace(p, SampleSet(p, d), 'n', None).folded_graph()
        return {(n.variable, n.values) for n in f.nodes}

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        m = {v: xs for v, xs in p.variables()}
        return {(v, set(m[v])) for v in {n.variable for s in d for n in s.nodes}}


class space_folded_unobserved:
    """C14: the unobserved count of a folded node is what its value counts leave of all counted outcomes"""
    fails = 'ignore'
    target = 'SampleSpace.folded_graph'
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        f = SampleSpace(p, SampleSet(p, d), 'n', None).folded_graph()
        return {(n.variable, n.unobserved_count()) for n in f.nodes}

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return {(m.variable, sum(d[s] for s in d) - sum(sum(d[t] for t in d if n in t.nodes)
                                               for n in {n for s in d for n in s.nodes if n.variable == m.variable}))
                for h in d for m in h.nodes}


class folded_unobserved:
    """C14: the unobserved count is what the value counts leave of the number of outcomes"""
    target = 'FoldedNode.unobserved_count'

    def code(v: Any, xs: Set[Any], c: Dict[ValueNode, int], n: int):
        return FoldedNode(v, xs, c, n).unobserved_count()

    def spec(v: Any, xs: Set[Any], c: Dict[ValueNode, int], n: int):
        return n - sum(c[k] for k in c)


class folded_distribution:
    """C14: the folded marginal gives each declared value its count share and the rest to the unobserved entry"""
    fails = 'ignore'
    target = 'FoldedNode.marginal_distribution'
    rejects = 'ignore'

    def code(v: Any, xs: Set[Any], c: Dict[ValueNode, int], n: int):
        return FoldedNode(v, xs, c, n).marginal_distribution()

    def spec(v: Any, xs: Set[Any], c: Dict[ValueNode, int], n: int):
        return {x: (n - sum(c[k] for k in c)) / n if x == 'unobserved' else sum(c[k] for k in c if k.value == x) / n
                for x in xs | {'unobserved'}}


class folded_reading:
    """C14: folded nodes and edges report what they were given"""
    fails = 'ignore'
    target = 'FoldedNode.__init__'
    rejects = 'ignore'

    def code(v: Any, xs: Set[Any], c: Dict[ValueNode, int], n: int, e: Set[Any], k: Dict[RelationEdge, int]):
        a = FoldedNode(v, xs, c, n)
        b = FoldedEdge(e, k)
        return (a.variable, a.values, a.value_nodes, b.endpoints, b.relation_edges)

    def spec(v: Any, xs: Set[Any], c: Dict[ValueNode, int], n: int, e: Set[Any], k: Dict[RelationEdge, int]):
        return (v, xs, set(c.items()), e, set(k.items()))


class folded_lookup:
    """C14: looking a variable up finds its folded node"""
    target = 'FoldedGraph.folded_node'

    def code(p: SampleGraphComponentsProvider, a: FoldedNode, es: Set[FoldedEdge], v: Any):
        return FoldedGraph(p, 1, {a}, es, 'n').folded_node(v)

    def spec(p: SampleGraphComponentsProvider, a: FoldedNode, es: Set[FoldedEdge], v: Any):
        return a if a.variable == v else None


class variable_edge_arity:
    """C14: an edge between variables has exactly two endpoints"""
    target = 'VariableEdge.__init__'

    def code(e: Set[Any]):
        return VariableEdge(e).endpoints

    def spec(e: Set[Any]):
        assert len(e) == 2
        return e


class space_roundtrip:
    """C04: converting a space to a builder or a relation graph keeps outcomes, counts and vocabulary"""
    target = 'SampleSpace.builder'
    rejects = 'ignore'

    def pre(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return bool(d)

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        x = SampleSpace(p, SampleSet(p, d), 'n', None)
        return (x.builder().build().outcomes.items(), x.relation_graph().outcomes.items(),
                x.builder().build().variables, x.relation_graph().relations)

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        i = set(d.items())
        return (i, i, p.variables(), p.relations())


class graph_add_outcome:
    """C11: adding an outcome adds its count; counts below one and foreign samples are refused"""
    target = 'RelationGraphBuilder.add_outcome'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph, c: int):
        b = RelationGraphBuilder(None, None, 'n', SampleSetBuilder(p, d), p)
        b.add_outcome(s, c)
        return b.build().outcomes.items()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph, c: int):
        assert s.is_compatible(p)
        assert c >= 1
        return {(x, d.get(x, 0) + (c if x == s else 0)) for x in set(d) | {s}}


class graph_add_outcomes:
    """C11: adding outcomes adds the count once per listed outcome"""
    fails = 'ignore'
    target = 'RelationGraphBuilder.add_outcomes'
    rejects = 'ignore'

    def pre(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], a: SampleGraph, b: SampleGraph, c: int):
        return True

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], a: SampleGraph, b: SampleGraph, c: int):
        x = RelationGraphBuilder(None, None, 'n', SampleSetBuilder(p, d), p)
        x.add_outcomes([a, b], c)
        return x.build().outcomes.items()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], a: SampleGraph, b: SampleGraph, c: int):
        return {(x, d.get(x, 0) + (c if x == a else 0) + (c if x == b else 0)) for x in set(d) | {a, b}}


class graph_build_sample:
    """C11: a built sample is added once"""
    target = 'RelationGraphBuilder.build_sample'
    rejects = 'ignore'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], v: Any, x: Any):
        b = RelationGraphBuilder(None, None, 'n', SampleSetBuilder(p, d), p)
        b.build_sample(lambda s: s.build_single_node(v, x))
        return b.build().outcomes.items()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], v: Any, x: Any):
        s = SampleGraphBuilder(p).build_single_node(v, x)
        return {(y, d.get(y, 0) + (1 if y == s else 0)) for y in set(d) | {s}}


class graph_build_gate:
    """C11: a relation graph has at least one outcome"""
    target = 'RelationGraphBuilder.build'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        g = RelationGraphBuilder(None, None, 'n', SampleSetBuilder(p, d), p).build()
        return (g.outcomes.items(), g.variables, g.relations)

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        assert d
        return (set(d.items()), p.variables(), p.relations())


class graph_is_joined:
    """C17: joined means every outcome covers the same variables"""
    target = 'RelationGraph.is_joined'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return RelationGraph(p, 'n', SampleSet(p, d)).is_joined()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return all(s.included_variables == t.included_variables for s in d for t in d)

    def spec_2(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return all(s.included_variables == next(iter(d)).included_variables for s in d)

    def spec_3(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return len({s.included_variables for s in d}) <= 1

    def spec_4(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return all(s.included_variables == {v for t in d for v in t.included_variables} for s in d)

    def spec_5(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return all(s.included_variables == list(d)[0].included_variables for s in d)

    def spec_6(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return len({s.included_variables for s in d}) < 2


class graph_is_factorized:
    """C17: factorized means no empty outcome and overlapping outcomes relate the same pairs of variables"""
    target = 'RelationGraph.is_factorized'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return RelationGraph(p, 'n', SampleSet(p, d)).is_factorized()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return not any(s.is_k_0 for s in d) and not any(
            s.edges_endpoint_variables() != t.edges_endpoint_variables()
            and not s.edges_endpoint_variables().isdisjoint(t.edges_endpoint_variables()) for s in d for t in d)


class graph_describe:
    """C16: the description counts variables, relations and outcomes"""
    target = 'RelationGraph.describe'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        x = RelationGraph(p, 'n', SampleSet(p, d)).describe()
        return (x['number_of_variables'], x['number_of_relations'], x['number_of_outcomes'], x['variables'],
                x['relations'])

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return (len(p.variables()), len(p.relations()), sum(d[s] for s in d), {str(v) for v, _ in p.variables()},
                {str(r) for r in p.relations()})


class conditional_describe:
    """C16: the description of a conditional graph counts its outcomes and lists what occurs in them"""
    target = 'ConditionalGraph.describe'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], g: SampleGraph):
        x = ConditionalGraph(p, g, 'n', SampleSet(p, d)).describe()
        return (x['number_outcomes'], x['included_variables'], x['included_relations'])

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], g: SampleGraph):
        return (sum(d[s] for s in d), {str(n.variable) for s in d for n in s.nodes},
                {str(e.relation) for s in d for e in s.edges})
