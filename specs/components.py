"""Vocabulary: variables, values, relations and the nodes / edges issued for them."""


class node_reading:
    """C04: a node is its variable and its value"""
    target = 'ValueNode.var_val'

    def code(v: Any, x: Any):
        n = ValueNode(v, x)
        return (n.variable, n.value, n.var_val())

    def spec(v: Any, x: Any):
        return (v, x, (v, x))


class node_equality:
    """C03: nodes are equal exactly when variable and value are"""
    target = 'ValueNode.__eq__'

    def code(v: Any, x: Any, w: Any, y: Any):
        return ValueNode(v, x).__eq__(ValueNode(w, y))

    def spec(v: Any, x: Any, w: Any, y: Any):
        return v == w and x == y


class edge_reading:
    """C04: an edge is its endpoints and its relation"""
    target = 'RelationEdge.__init__'

    def code(a: ValueNode, b: ValueNode, r: Any, n: ValueNode):
        e = RelationEdge(frozenset({a, b}), r)
        return (e.endpoints, e.relation, e.is_endpoint(n))

    def spec(a: ValueNode, b: ValueNode, r: Any, n: ValueNode):
        return ({a, b}, r, n == a or n == b)


class edge_equality:
    """C03: edges are equal exactly when endpoints and relation are"""
    target = 'RelationEdge.__eq__'

    def code(e: FrozenSet[ValueNode], r: Any, f: FrozenSet[ValueNode], q: Any):
        return RelationEdge(e, r).__eq__(RelationEdge(f, q))

    def spec(e: FrozenSet[ValueNode], r: Any, f: FrozenSet[ValueNode], q: Any):
        return e == f and r == q


class directed_equality:
    """C03: directed relations are equal exactly when source, target and relation are"""
    target = 'DirectedRelation.__eq__'

    def code(s: Any, t: Any, r: Any, s2: Any, t2: Any, r2: Any):
        return DirectedRelation(s, t, r).__eq__(DirectedRelation(s2, t2, r2))

    def spec(s: Any, t: Any, r: Any, s2: Any, t2: Any, r2: Any):
        return s == s2 and t == t2 and r == r2


class provider_lists:
    """C05: the vocabulary reports exactly the declared variables, values and relations"""
    target = 'BuilderComponentsProvider.variables'

    def code(vs: Dict[Any, Set[Any]], rs: Set[Any]):
        p = BuilderComponentsProvider(vs, rs)
        return (p.variables(), p.relations())

    def spec(vs: Dict[Any, Set[Any]], rs: Set[Any]):
        assert vs and rs
        assert all(vs[v] for v in vs)
        return ({(v, frozenset(vs[v])) for v in vs}, rs)


class provider_get_node:
    """C05: nodes are issued only for declared variables and values, and are what was asked for"""
    target = 'BuilderComponentsProvider.get_node'

    def pre(vs: Dict[Any, Set[Any]], rs: Set[Any], v: Any, x: Any):
        return bool(vs) and bool(rs) and all(vs[v] for v in vs)

    def code(vs: Dict[Any, Set[Any]], rs: Set[Any], v: Any, x: Any):
        n = BuilderComponentsProvider(vs, rs).get_node(v, x)
        return (n.variable, n.value)

    def spec(vs: Dict[Any, Set[Any]], rs: Set[Any], v: Any, x: Any):
        assert v in vs
        assert x in vs[v]
        return (v, x)


class provider_intern_node:
    """C06: a node is created once; a node already issued is handed out again and never replaced"""
    fails = 'ignore'
    target = 'BuilderComponentsProvider.get_node'
    rejects = 'ignore'

    def code(p: BuilderComponentsProvider, v: Any, x: Any):
        n = p.get_node(v, x)
        return (n, p.nodes, p.edges)

    def spec(p: BuilderComponentsProvider, v: Any, x: Any):
        if (v, x) in p.nodes:
            return (p.nodes[(v, x)], p.nodes, p.edges)
        m = dict(p.nodes)
        m[(v, x)] = ValueNode(v, x)
        p.nodes[(v, x)] = ValueNode(v, x)
        return (ValueNode(v, x), m, p.edges)


class provider_get_edge:
    """C05: an edge is issued only over nodes already issued and for a declared relation whose direction names them"""
    target = 'BuilderComponentsProvider.get_edge'
    rejects = 'exact'

    def code(p: BuilderComponentsProvider, e: FrozenSet[ValueNode], r: Any):
        p.get_edge(e, r)

    def spec(p: BuilderComponentsProvider, e: FrozenSet[ValueNode], r: Any):
        assert all(n in p.nodes.values() for n in e)
        if isinstance(r, DirectedRelation):
            assert r.relation in p.relations()
            assert any(n.variable == r.source_variable for n in e)
            assert any(n.variable == r.target_variable for n in e)
        else:
            assert r in p.relations()
        if (e, r) not in p.edges:
            p.edges[(e, r)] = RelationEdge(e, r)


class provider_intern_edge:
    """C06: an edge is created once; an edge already issued is handed out again and never replaced"""
    fails = 'ignore'
    target = 'BuilderComponentsProvider.get_edge'
    rejects = 'ignore'

    def code(p: BuilderComponentsProvider, e: FrozenSet[ValueNode], r: Any):
        n = p.get_edge(e, r)
        return (n, p.edges, p.nodes)

    def spec(p: BuilderComponentsProvider, e: FrozenSet[ValueNode], r: Any):
        if (e, r) in p.edges:
            return (p.edges[(e, r)], p.edges, p.nodes)
        m = dict(p.edges)
        m[(e, r)] = RelationEdge(e, r)
        p.edges[(e, r)] = RelationEdge(e, r)
        return (RelationEdge(e, r), m, p.nodes)


class edge_opposite:
    """C16: the opposite end of an edge is its other end; what is no end of it has none"""
    target = 'RelationEdge.opposite_endpoint'

    def code(a: ValueNode, b: ValueNode, r: Any, n: ValueNode):
        return RelationEdge(frozenset({a, b}), r).opposite_endpoint(n)

    def spec(a: ValueNode, b: ValueNode, r: Any, n: ValueNode):
        e = list(frozenset({a, b}))
        assert n == e[0] or n == e[1]
        return e[1] if n == e[0] else e[0]

    def pre(a: ValueNode, b: ValueNode, r: Any, n: ValueNode):
        return a != b


class node_text:
    """C04: the text of a node names its variable and its value"""
    target = 'ValueNode.__repr__'
    observe = ('string_id',)

    def code(v: Any, x: Any):
        return ValueNode(v, x).__repr__()

    def spec(v: Any, x: Any):
        return f"({v}_{x})"


class directed_text:
    """C04: the text of a directed relation leads from its source to its target"""
    target = 'DirectedRelation.__repr__'

    def code(s: Any, t: Any, r: Any):
        return DirectedRelation(s, t, r).__repr__()

    def spec(s: Any, t: Any, r: Any):
        return f"{r}[{s}->{t}]"
