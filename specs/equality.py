"""Equality of variable-level objects, and agreement of hashing with equality."""


class variable_node_equality:
    """C03: variable nodes are equal exactly when their variables are"""
    target = 'VariableNode.__eq__'

    def code(v: Any, w: Any):
        return VariableNode(v).__eq__(VariableNode(w))

    def spec(v: Any, w: Any):
        return v == w


class variable_edge_equality:
    """C03: variable edges are equal exactly when their endpoints are"""
    fails = 'ignore'
    target = 'VariableEdge.__eq__'
    rejects = 'ignore'

    def code(v: Set[Any], w: Set[Any]):
        return VariableEdge(v).__eq__(VariableEdge(w))

    def spec(v: Set[Any], w: Set[Any]):
        return v == w


class folded_node_equality:
    """C03: folded nodes are equal exactly when variable and tallied value nodes are"""
    target = 'FoldedNode.__eq__'

    def code(v: Any, x: Set[Any], c: Dict[ValueNode, int], n: int, w: Any, y: Set[Any], d: Dict[ValueNode, int], m: int):
        return FoldedNode(v, x, c, n).__eq__(FoldedNode(w, y, d, m))

    def spec(v: Any, x: Set[Any], c: Dict[ValueNode, int], n: int, w: Any, y: Set[Any], d: Dict[ValueNode, int], m: int):
        return v == w and set(c.items()) == set(d.items())


class folded_edge_equality:
    """C03: folded edges are equal exactly when endpoints and tallied relation edges are"""
    fails = 'ignore'
    target = 'FoldedEdge.__eq__'
    rejects = 'ignore'

    def code(v: Set[Any], c: Dict[RelationEdge, int], w: Set[Any], d: Dict[RelationEdge, int]):
        return FoldedEdge(v, c).__eq__(FoldedEdge(w, d))

    def spec(v: Set[Any], c: Dict[RelationEdge, int], w: Set[Any], d: Dict[RelationEdge, int]):
        return v == w and set(c.items()) == set(d.items())


class active_node_equality:
    """C03: active nodes are equal exactly when variable, values and query membership are"""
    target = 'ActiveNode.__eq__'

    def code(v: Any, c: Dict[Any, float], q: bool, w: Any, d: Dict[Any, float], r: bool):
        return ActiveNode(v, c, q).__eq__(ActiveNode(w, d, r))

    def spec(v: Any, c: Dict[Any, float], q: bool, w: Any, d: Dict[Any, float], r: bool):
        return v == w and set(c.items()) == set(d.items()) and q == r


class active_edge_equality:
    """C03: active edges are equal exactly when endpoints, relations and query membership are"""
    fails = 'ignore'
    target = 'ActiveEdge.__eq__'
    rejects = 'ignore'

    def code(v: Set[Any], c: Dict[Any, int], q: bool, w: Set[Any], d: Dict[Any, int], r: bool):
        return ActiveEdge(v, c, q).__eq__(ActiveEdge(w, d, r))

    def spec(v: Set[Any], c: Dict[Any, int], q: bool, w: Set[Any], d: Dict[Any, int], r: bool):
        return v == w and set(c.items()) == set(d.items()) and q == r


class variables_graph_equality:
    """C03: variable graphs are equal exactly when they have the same nodes and edges"""
    target = 'VariablesGraph.__eq__'

    def code(p: SampleGraphComponentsProvider, n: Set[VariableNode], e: Set[VariableEdge],
             m: Set[VariableNode], f: Set[VariableEdge]):
        return VariablesGraph(p, 1, n, e, 'a').__eq__(VariablesGraph(p, 2, m, f, 'b'))

    def spec(p: SampleGraphComponentsProvider, n: Set[VariableNode], e: Set[VariableEdge],
             m: Set[VariableNode], f: Set[VariableEdge]):
        return n == m and e == f


class foreign_equality:
    """C03: nothing equals something of another kind"""
    target = 'ValueNode.__eq__'

    def code(n: ValueNode, e: RelationEdge, r: DirectedRelation, g: SampleGraph, s: str, x: Tuple[Any, Any]):
        return (n.__eq__(s), n.__eq__(x), e.__eq__(s), e.__eq__(x), r.__eq__(s), r.__eq__(x), g.__eq__(s), g.__eq__(n))

    def spec(n: ValueNode, e: RelationEdge, r: DirectedRelation, g: SampleGraph, s: str, x: Tuple[Any, Any]):
        return (False, False, False, False, False, False, False, False)


class foreign_equality_sets:
    """C03: no set of samples and no part of a graph equals something of another kind"""
    target = 'SampleSet.__eq__'

    def code(a: SampleSet, n: VariableNode, e: VariableEdge, f: FoldedNode, h: FoldedEdge, v: ActiveNode,
             w: ActiveEdge, s: str, g: SampleGraph):
        return (a.__eq__(s), a.__eq__(g), n.__eq__(s), e.__eq__(s), f.__eq__(s), h.__eq__(s), v.__eq__(s), w.__eq__(s),
                f.__eq__(v), h.__eq__(w), v.__eq__(f), w.__eq__(h))

    def spec(a: SampleSet, n: VariableNode, e: VariableEdge, f: FoldedNode, h: FoldedEdge, v: ActiveNode,
             w: ActiveEdge, s: str, g: SampleGraph):
        return (False, False, False, False, False, False, False, False, False, False, False, False)
