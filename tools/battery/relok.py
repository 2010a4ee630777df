S = 'relnet/sample_set.py'
SG = 'relnet/sample_graph.py'
SP = 'relnet/sample_space.py'
RG = 'relnet/relation_graph.py'
GC = 'relnet/graph_components.py'
FG = 'relnet/folded_graph.py'
CG = 'relnet/conditional_graph.py'
AG = 'relnet/activation_graph.py'
VGm = 'relnet/variables_graph.py'
ALL = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18'
_T = [
    (S, [('        return {(o, c) for o, c in self._samples.items()}', '        return set(self._samples.items())')]),
    (S, [('        return set(self._samples.keys())', '        return set(self._samples)')]),
    (S, [('        return id(self._components_provider) == id(other._components_provider)', '        return self._components_provider is other._components_provider')]),
    (S, [('        builder = self.builder()\n        for s, c in other.items():\n            builder.add(s, c)\n        return builder.build()', '        return self.builder().add_all(other).build()')]),
    (S, [('        builder = self.builder()\n        for s, c in other.items():\n            builder.add(s, c)\n        return builder.build()', '        merged = dict(self._samples)\n        for s, c in other._samples.items():\n            merged[s] = merged.get(s, 0) + c\n        return SampleSet(self._components_provider, merged)')]),
    (S, [('        return SampleSet(self._components_provider, {s: c for s, c in self._samples.items() if p(s)})', '        kept: Dict[SampleGraph, int] = {}\n        for s, c in self._samples.items():\n            if not p(s):\n                continue\n            kept[s] = c\n        return SampleSet(self._components_provider, kept)')]),
    (S, [('        if sample in self._samples:\n            self._samples[sample] += count\n        else:\n            self._samples[sample] = count\n        return self', '        self._samples[sample] = self._samples.get(sample, 0) + count\n        return self')]),
    (S, [('        return sample, self._samples.pop(sample)', '        count = self._samples[sample]\n        del self._samples[sample]\n        return sample, count')]),
    (S, [('        for o in self._samples.keys():\n            if o.have_value(variable, value):\n                return True\n        return False', '        return any(o.have_value(variable, value) for o in self._samples)')]),
    (S, [('        for sample in self._samples.keys():\n            for node in sample.nodes:\n                if node.variable in var_acc:\n                    if var_acc[node.variable] != node.value:\n                        return False\n                else:\n                    var_acc[node.variable] = node.value\n        return True', '        for sample in self._samples:\n            for node in sample.nodes:\n                if var_acc.setdefault(node.variable, node.value) != node.value:\n                    return False\n        return True')]),
    (S, [('        for sample in self._samples.keys():\n            for node in sample.nodes:\n                if node.variable in var_acc:\n                    if var_acc[node.variable] != node.value:\n                        return False\n                else:\n                    var_acc[node.variable] = node.value\n        return True', '        nodes = {n for s in self._samples for n in s.nodes}\n        return len(nodes) == len({n.variable for n in nodes})')]),
    (S, [('        return sum(self._samples.values())\n\n    def empty', '        total = 0\n        for c in self._samples.values():\n            total += c\n        return total\n\n    def empty')]),
    (S, [('        for sample in samples.samples():\n            self.remove(sample)\n        return self', '        for sample, _ in samples.items():\n            self.remove(sample)\n        return self')]),
    (S, [('        assert sample in self._samples, f"[SampleSet.probability_of] No sample {sample} in this sample set"\n        return self._samples[sample] / self.length', '        return self.count_of(sample) / self.length')]),
    (S, [('        props = {(o, c / self.length) for o, c in self._samples.items()}', '        total = self.length\n        props = set()\n        for o, c in self._samples.items():\n            props.add((o, c / total))')]),
    (S, [('        self.length: int = sum(self._samples.values())', '        self.length: int = sum(c for c in samples.values())')]),
    (S, [('        if isinstance(other, SampleSet):\n            return self._samples == other._samples\n        return False', '        return isinstance(other, SampleSet) and self._samples == other._samples')]),
    (S, [('        self._hash = hash(tuple(sorted([(hash(o), hash(c)) for o, c in samples.items()])))', '        self._hash = hash(frozenset(samples.items()))')]),
    # sample graph
    (SG, [('        return self.hash.issubset(other.hash)', '        return self.hash <= other.hash')]),
    (SG, [('        return self.hash.issubset(other.hash)', '        return self.nodes.issubset(other.nodes) and self.edges.issubset(other.edges)')]),
    (SG, [('        for n in self.nodes:\n            if n.variable == variable:\n                return n.value\n        return None', '        return next((n.value for n in self.nodes if n.variable == variable), None)')]),
    (SG, [('        intersect_hash = self.hash.intersection(other.hash)\n        differ_hash = self.hash.symmetric_difference(other.hash)\n        if not intersect_hash and not differ_hash:\n            return 1.0  # Both samples are empty\n        return len(intersect_hash) / (len(intersect_hash) + len(differ_hash))', '        union = self.hash | other.hash\n        if not union:\n            return 1.0\n        return len(self.hash & other.hash) / len(union)')]),
    (SG, [('        return {e.opposite_endpoint(center): e\n                for e in self.edges\n                if e.is_endpoint(center) and (not relation_filter or (e.relation in relation_filter))}', '        result = {}\n        for e in self.edges:\n            if not e.is_endpoint(center):\n                continue\n            if relation_filter and e.relation not in relation_filter:\n                continue\n            result[e.opposite_endpoint(center)] = e\n        return result')]),
    (SG, [('                    if node in acc:\n                        assert edge not in acc[node], \\\n                            "[SampleGraph.belt_nodes] sample graph can\'t have 2 identical edges, look like bug"\n                        acc[node].add(edge)\n                    else:\n                        acc[node] = {edge}', '                    acc.setdefault(node, set()).add(edge)')]),
    (SG, [('        return {n.var_val() for n in self.nodes}', '        return {(n.variable, n.value) for n in self.nodes}')]),
    (SG, [('        for n in self.nodes:\n            if n.var_val() == (variable, value):\n                return True\n        return False', '        return (variable, value) in self.values()')]),
    (SG, [('        for n in self.nodes:\n            if n.variable == variable:\n                return True\n        return False', '        return variable in self.included_variables')]),
    (SG, [('        return frozenset(\n            {n for n in self.nodes if n.variable in variables}.union(\n                {e for e in self.edges if {ep.variable for ep in e.endpoints}.issubset(variables)}))', '        nodes = {n for n in self.nodes if n.variable in variables}\n        edges = {e for e in self.edges if all(ep.variable in variables for ep in e.endpoints)}\n        return frozenset(nodes | edges)')]),
    (SG, [('        assert not nodes.isdisjoint(self._nodes) or not self._nodes, \\', '        assert not self._nodes or nodes & self._nodes, \\')]),
    (SG, [('        for edge in sample.edges:\n            if edge.endpoints in self._endpoints and edge.relation != self._endpoints[edge.endpoints].relation:\n                return False\n        return True', '        return not any(\n            edge.endpoints in self._endpoints and edge.relation != self._endpoints[edge.endpoints].relation\n            for edge in sample.edges)')]),
    (SG, [('        for edge in sample.edges:\n            if edge.endpoints in self._endpoints and edge.relation != self._endpoints[edge.endpoints].relation:\n                return False\n        return True', '        for edge in sample.edges:\n            known = self._endpoints.get(edge.endpoints)\n            if known is not None and known.relation != edge.relation:\n                return False\n        return True')]),
    (SG, [('        return self.add_relation({source, target}, DirectedRelation(source[0], target[0], relation))', '        source_variable, _ = source\n        target_variable, _ = target\n        directed = DirectedRelation(source_variable, target_variable, relation)\n        return self.add_relation({source, target}, directed)')]),
    (SG, [('        self.included_variables: frozenset[Any] = frozenset({n.variable for n in nodes})', '        self.included_variables: frozenset[Any] = frozenset(n.variable for n in nodes)')]),
    (SG, [('        self.hash: frozenset[Any] = nodes.union({e for e in edges})', '        self.hash: frozenset[Any] = frozenset(nodes) | frozenset(edges)')]),
    (SG, [('        self.is_k_0: bool = not bool(nodes) and not bool(edges)', '        self.is_k_0: bool = not (nodes or edges)')]),
    (SG, [('            {n for n in self.nodes},\n            {e for e in self.edges})', '            set(self.nodes),\n            set(self.edges))')]),
    (SG, [('        if self.edges:\n            return frozenset({\n                (frozenset({(n.variable, n.value) for n in e.endpoints}), e.relation) for e in self.edges})\n        elif self.nodes:\n            single_node = list(self.nodes)[0]\n            return single_node.variable, single_node.value\n        else:\n            return None', '        if self.edges:\n            view = set()\n            for e in self.edges:\n                view.add((frozenset(n.var_val() for n in e.endpoints), e.relation))\n            return frozenset(view)\n        if not self.nodes:\n            return None\n        return next(iter(self.nodes)).var_val()')]),
    (SG, [('        self.validate_endpoints(frozenset(endpoints))\n        nodes = {self._components_provider.get_node(var, val) for var, val in endpoints}\n        edge = self._components_provider.get_edge(frozenset(nodes), relation)\n\n        assert not', '        nodes, edge = self._components_for(frozenset(endpoints), relation)\n\n        assert not'), ('    def add_directed_relation(', '    def _components_for(self, endpoints, relation):\n        self.validate_endpoints(endpoints)\n        nodes = {self._components_provider.get_node(var, val) for var, val in endpoints}\n        return nodes, self._components_provider.get_edge(frozenset(nodes), relation)\n\n    def add_directed_relation(')]),
    (SG, [('        def transform_nodes(nodes: frozenset[ValueNode]) -> frozenset[ValueNode]:\n            return frozenset({\n                (node_provider(node.variable, to_replace[node.variable]) if node.variable in to_replace else node)\n                for node in nodes})', '        def transform_node(node: ValueNode) -> ValueNode:\n            if node.variable not in to_replace:\n                return node\n            return node_provider(node.variable, to_replace[node.variable])\n\n        def transform_nodes(nodes: frozenset[ValueNode]) -> frozenset[ValueNode]:\n            return frozenset({transform_node(node) for node in nodes})')]),
    # space
    (SP, [('        return frozenset({(o.edges_set_view(), c) for o, c in self.outcomes.items()})', '        return frozenset((o.edges_set_view(), c) for o, c in self.outcomes.items())')]),
    (SP, [('                variables[node.variable] = variables.get(node.variable, set({})).union({node.value})', '                variables.setdefault(node.variable, set()).add(node.value)')]),
    (SP, [('        return frozenset({e.relation for o in self.outcomes.samples() for e in o.edges})', '        relations = set()\n        for o in self.outcomes.samples():\n            for e in o.edges:\n                relations.add(e.relation)\n        return frozenset(relations)')]),
    (SP, [('        ssb = SampleSetBuilder(self._components_provider)\n\n        for s, c in self.outcomes.items():\n            if values.issubset(s.values()):\n                ssb.add(s, c)\n\n        return ssb.build()', '        return self.outcomes.filter_samples(lambda s: values.issubset(s.values()))')]),
    (SP, [('                    if in_var in group_acc:\n                        group_acc[in_var][in_val] = group_acc[in_var].get(in_val, 0) + count\n                    else:\n                        group_acc[in_var] = {in_val: count}', '                    values = group_acc.setdefault(in_var, {})\n                    values[in_val] = values.get(in_val, 0) + count')]),
    (SP, [('        for outcome, count in self.outcomes.items():\n            for node in outcome.nodes:\n                if node.variable in node_acc:\n                    node_acc[node.variable][node] = node_acc[node.variable].get(node, 0) + count\n                else:\n                    node_acc[node.variable] = {node: count}', '        for outcome, count in self.outcomes.items():\n            for node in outcome.nodes:\n                counts = node_acc.setdefault(node.variable, {})\n                counts[node] = counts.get(node, 0) + count')]),
    # relation graph
    (RG, [('        selected_outcomes: Dict[SampleGraph, int] = {\n            outcome: count for outcome, count in self.outcomes.items()\n            if evidence.is_subgraph(outcome) or evidence.included_variables.isdisjoint(outcome.included_variables)}', '        def is_selected(outcome: SampleGraph) -> bool:\n            if evidence.is_subgraph(outcome):\n                return True\n            return not (evidence.included_variables & outcome.included_variables)\n\n        selected_outcomes: Dict[SampleGraph, int] = {}\n        for outcome, count in self.outcomes.items():\n            if is_selected(outcome):\n                selected_outcomes[outcome] = count')]),
    (RG, [('            SampleSet(self._components_provider, selected_outcomes))', '            self.outcomes.filter_samples(lambda o: o in selected_outcomes))')]),
    (RG, [('        for outcome in outcomes:\n            self.add_outcome(outcome, count)\n        return self', '        for i in range(len(outcomes)):\n            self.add_outcome(outcomes[i], count)\n        return self')]),
    (RG, [('        vs = next(iter(self.outcomes.samples())).included_variables if self.outcomes else frozenset({})\n        for o in self.outcomes.samples():\n            if vs != o.included_variables:\n                return False\n        return True', '        return len({o.included_variables for o in self.outcomes.samples()}) <= 1')]),
    (RG, [('        vs = next(iter(self.outcomes.samples())).included_variables if self.outcomes else frozenset({})\n        for o in self.outcomes.samples():\n            if vs != o.included_variables:\n                return False\n        return True', '        samples = self.outcomes.samples()\n        if not samples:\n            return True\n        vs = next(iter(samples)).included_variables\n        return all(o.included_variables == vs for o in samples)')]),
    (RG, [('        assert count >= 1, \\\n', '        assert not count < 1, \\\n')]),
    (RG, [('        return self.add_outcome(build(SampleGraphBuilder(self._components_provider)))', '        sample = build(self.sample_builder())\n        return self.add_outcome(sample)')]),
    # components
    (GC, [('        if (variable, value) in self.nodes:\n            return self.nodes[(variable, value)]\n        else:\n            node = ValueNode(variable, value)\n            self.nodes[(variable, value)] = node\n            return node', '        key = (variable, value)\n        if key not in self.nodes:\n            self.nodes[key] = ValueNode(variable, value)\n        return self.nodes[key]')]),
    (GC, [('        if (endpoints, relation) in self.edges:\n            return self.edges[(endpoints, relation)]\n        else:\n            edge = RelationEdge(endpoints, relation)\n            self.edges[(endpoints, relation)] = edge\n            return edge', '        edge = self.edges.get((endpoints, relation))\n        if edge is None:\n            edge = RelationEdge(endpoints, relation)\n            self.edges[(endpoints, relation)] = edge\n        return edge')]),
    (GC, [('        assert (relation.relation if isinstance(relation, DirectedRelation) else relation) in self._relations, \\', '        kind = relation.relation if isinstance(relation, DirectedRelation) else relation\n        assert kind in self._relations, \\')]),
    (GC, [('        for var, values in variables.items():\n            assert values, \\\n                f"[BuilderComponentsProvider.__init__] Set of variable values should not be empty, found for {var}"\n', '        assert all(values for values in variables.values()), \\\n            f"[BuilderComponentsProvider.__init__] Set of variable values should not be empty"\n')]),
    (GC, [('            return self.variable == other.variable and self.value == other.value\n', '            return self.var_val() == other.var_val()\n')]),
    (GC, [('        if isinstance(other, RelationEdge):\n            return self.endpoints == other.endpoints and self.relation == other.relation\n        return False', '        if not isinstance(other, RelationEdge):\n            return False\n        return self.relation == other.relation and self.endpoints == other.endpoints')]),
    (GC, [('        return frozenset({(k, frozenset(v)) for k, v in self._variables.items()})', '        return frozenset((var, frozenset(self._variables[var])) for var in self._variables)')]),
    (GC, [('        return (self.variable, self.value).__hash__()', '        return hash((self.variable, self.value))')]),
    (GC, [('            return self.source_variable == other.source_variable and self.target_variable == other.target_variable\\\n                   and self.relation == other.relation\n', '            return (self.source_variable, self.target_variable, self.relation) == \\\n                   (other.source_variable, other.target_variable, other.relation)\n')]),
    # folded
    (FG, [('        acc: Dict[Any, float] = {v: 0.0 for v in self.values}\n        total: int = 0\n\n        for value_node, count in self.value_nodes:\n            assert value_node.value in acc, \\\n                f"[FoldedNode.marginal_distribution] Unknown value {value_node.value}, seems a bug."\n            acc[value_node.value] += count\n            total += count\n', '        acc: Dict[Any, float] = dict.fromkeys(self.values, 0.0)\n\n        for value_node, count in self.value_nodes:\n            assert value_node.value in acc, \\\n                f"[FoldedNode.marginal_distribution] Unknown value {value_node.value}, seems a bug."\n            acc[value_node.value] += count\n        total = sum(count for _, count in self.value_nodes)\n')]),
    (FG, [('        return self._number_of_outcomes - sum(self._value_nodes_dict.values())', '        observed = 0\n        for _, count in self.value_nodes:\n            observed += count\n        return self._number_of_outcomes - observed')]),
    (FG, [('        return self._nodes_dict.get(variable)', '        for node in self.nodes:\n            if node.variable == variable:\n                return node\n        return None')]),
    (FG, [('            return self.variable == other.variable and self.value_nodes == other.value_nodes\n', '            return self.value_nodes == other.value_nodes and self.variable == other.variable\n')]),
    (CG, [('            "included_variables": {str(v) for v, _ in self.included_variables()},', '            "included_variables": set(str(v) for v, _ in self.included_variables()),')]),
]
CASES = [(f'r{i}', 'ok', ALL, f, e) for i, (f, e) in enumerate(_T)]
