"""Planted bugs written from the statements, as someone who has not seen the checks would."""
S = 'relnet/sample_set.py'
SG = 'relnet/sample_graph.py'
SP = 'relnet/sample_space.py'
RG = 'relnet/relation_graph.py'
GC = 'relnet/graph_components.py'
FG = 'relnet/folded_graph.py'
CG = 'relnet/conditional_graph.py'
AG = 'relnet/activation_graph.py'
VG = 'relnet/variables_graph.py'
CASES = []


def b(pr, f, *e):
    CASES.append((f'x{len(CASES) + 1:02}', 'bug', pr, f, list(e)))


b('C03', GC, ("            return self.endpoints == other.endpoints and self.relation == other.relation", "            return hash(self) == hash(other)"))
b('C06 C05 C04', GC, ("        if (variable, value) in self.nodes:\n            return self.nodes[(variable, value)]", "        for n in self.nodes.values():\n            if n.string_id == f\"{variable}_{value}\":\n                return n\n        if False:\n            pass"))
b('C06', GC, ("            edge = RelationEdge(endpoints, relation)\n", "            if len(self.edges) > 10000:\n                self.edges.clear()\n            edge = RelationEdge(endpoints, relation)\n"))
b('C05', GC, ("            assert relation.source_variable in variables, ", "            assert {relation.source_variable, relation.target_variable} & variables, "), ("            assert relation.target_variable in variables, ", "            assert {relation.source_variable, relation.target_variable} & variables, "))
b('C05', GC, ("        assert endpoints.issubset(self.nodes.values()), ", "        assert all(n.variable in self._variables for n in endpoints), "))
b('C05', GC, ("        assert value in self._variables[variable], ", "        assert any(value in vs for vs in self._variables.values()), "))
b('C03', GC, ("            return self.source_variable == other.source_variable and self.target_variable == other.target_variable\\\n                   and", "            return {self.source_variable, self.target_variable} == {other.source_variable, other.target_variable}\\\n                   and"))
b('C03', GC, ("            return self.variable == other.variable and self.value == other.value", "            return self.string_id == other.string_id"))
b('C02', GC, ("{var: set(values) for var, values in variables.items()}", "dict(variables)"))
b('C16', GC, ("        if self.b == node:\n            return self.a\n        raise", "        return self.a\n        raise"))
b('C19', GC, ("        se = sorted([str(ep) for ep in self.endpoints])\n        return f\"{se[0]}--{{{self.relation}}}--{se[1]}\"", "        return f\"{self.a}--{{{self.relation}}}--{self.b}\""))
b('C08', SG, ("                for next_node in tracing_map[start_node]:\n                    trace(next_node)", "                traced.update(tracing_map[start_node])"))
b('C10', SG, ("            new_edges[edge.endpoints] = edge\n\n", "            new_edges[edge.endpoints] = edge\n            self._edges.add(edge)\n\n"))
b('C08', SG, ("        assert not nodes.isdisjoint(self._nodes) or not self._nodes, ", "        assert not nodes.isdisjoint(self._nodes) or not self._edges, "))
b('C10', SG, ("        new_nodes, new_edges = set(self._nodes), set(self._edges)\n", "        new_nodes, new_edges = set(self._nodes), self._edges\n"))
b('C08', SG, ("            self._nodes, self._edges, self._endpoints = new_nodes, new_edges, new_endpoints", "            self._nodes, self._edges = new_nodes, new_edges"))
b('C01', SG, ("frozenset(self._nodes), frozenset(self._edges), self._name)", "frozenset(self._nodes), self._edges if self._edges else frozenset(), self._name)"))
b('C09', SG, ("                return False\n        return True\n\n    def join_sample", "                return False\n            return True\n        return True\n\n    def join_sample"))
b('C09', SG, ("and edge.relation != self._endpoints[edge.endpoints].relation:", "and str(edge.relation) != str(self._endpoints[edge.endpoints].relation):"))
b('C15', SG, ("        return len(intersect_hash) / (len(intersect_hash) + len(differ_hash))", "        return 2 * len(intersect_hash) / (len(self.hash) + len(other.hash))"))
b('C04', SG, ("for n in e.endpoints}), e.relation) for e in self.edges})", "for n in e.endpoints}), getattr(e.relation, 'relation', e.relation)) for e in self.edges})"))
b('C16 C01', SG, ("        return {e.opposite_endpoint(center): e\n                for e in self.edges\n                if e.is_endpoint(center) and (not relation_filter or (e.relation in relation_filter))}", "        if not hasattr(self, '_near'):\n            self._near = {}\n        if center not in self._near:\n            self._near[center] = {\n                e.opposite_endpoint(center): e for e in self.edges\n                if e.is_endpoint(center) and (not relation_filter or (e.relation in relation_filter))}\n        return dict(self._near[center])"))
b('C18', SG, ("(node_provider(node.variable, to_replace[node.variable]) if node.variable in to_replace else node)", "(node_provider(node.variable, to_replace[node.variable]) if to_replace.get(node.variable) else node)"))
b('C18', SG, ("if not {e.variable for e in edge.endpoints}.isdisjoint(to_replace.keys()) else edge)", "if {e.variable for e in edge.endpoints}.issubset(to_replace.keys()) else edge)"))
b('C16', SG, ("            if n.var_val() == (variable, value):", "            if n.value == value:"))
b('C16', SG, ("if {ep.variable for ep in e.endpoints}.issubset(variables)}))", "if not {ep.variable for ep in e.endpoints}.isdisjoint(variables)}))"))
b('C20', SG, ("c in {'_', '-', '(', ')'})", "c in {'_', '-', '(', ')', '.', '/'})"))
b('C02', SG, ("        self._nodes: Set[ValueNode] = set(nodes) if nodes else set([])", "        self._nodes: Set[ValueNode] = nodes if isinstance(nodes, set) else set(nodes or [])"), ("SampleGraphBuilder(self._components_provider, self._name, set(self._nodes), set(self._edges))", "SampleGraphBuilder(self._components_provider, self._name, self._nodes, self._edges)"))
b('C11 C02', S, ("        for s, c in samples.items():\n            self.add(s, c)\n        return self", "        for s, c in samples.items():\n            self._samples.setdefault(s, c)\n        return self"))
b('C11', S, ("        for sample in samples.samples():\n            self.remove(sample)\n", "        for sample, c in samples.items():\n            self._samples[sample] -= c\n            if not self._samples[sample]:\n                self.remove(sample)\n"))
b('C03', S, ("            return self._samples == other._samples", "            return self.samples() == other.samples() and self.length == other.length"))
b('C03', S, ("            return self._samples == other._samples", "            return self._hash == other._hash"))
b('C03', S, ("hash(tuple(sorted([(hash(o), hash(c)) for o, c in samples.items()])))", "hash(tuple([(hash(o), hash(c)) for o, c in samples.items()]))"))
b('C01 C02', S, ("super(SampleSet, self).__init__(components_provider, samples.copy())", "super(SampleSet, self).__init__(components_provider, samples)"))
b('C13', S, ("        return self._samples[sample] / self.length", "        return self._samples[sample] / len(self._samples)"))
b('C13', S, ("{(o, c / self.length) for o, c in self._samples.items()}", "{(o, c / max(self.length, 1)) for o, c in self._samples.items() if c > 1 or self.length < 1000}"))
b('C09', S, ("                if node.variable in var_acc:", "                if var_acc.get(node.variable):"))
b('C07', S, ("        assert self.is_compatible(other), \\\n            f\"[SampleSet.union] Incompatible sample sets can't be joined, \" \\\n            f\"{self} incompatible to {other}\"\n", ""))
b('C02 C11', S, ("        return SampleSetBuilder(self._components_provider, self._samples)\n\n    def add(", "        twin = SampleSetBuilder(self._components_provider)\n        twin._samples = self._samples\n        return twin\n\n    def add("))
b('C11', S, ("        self.length: int = sum(self._samples.values())", "        self.length: int = sum(set(self._samples.values())) if len(self._samples) > 8 else sum(self._samples.values())"))
b('C12', RG, ("if evidence.is_subgraph(outcome) or", "if evidence.nodes.issubset(outcome.nodes) or"))
b('C12', RG, ("evidence.included_variables.isdisjoint(outcome.included_variables)}", "evidence.nodes.isdisjoint(outcome.nodes)}"))
b('C13', SP, ("                    in_val = outcome.value_for_variable(in_var)\n", "                    in_val = outcome.value_for_variable(in_var)\n                    if not in_val:\n                        continue\n"))
b('C13', SP, ("                values['u'] = self.outcomes.length - c_sum\n", "                values['u'] = values.get('u', 0) + self.outcomes.length - c_sum\n                values = {v: p for v, p in values.items() if p}\n"))
b('C14', SP, ("edge_acc[endpoints].get(edge, 0) + count", "edge_acc[endpoints].get(edge, count) + count"))
b('C14', SP, ("FoldedNode(variable, variables[variable], nodes, n_of_outcomes)", "FoldedNode(variable, {n.value for n in nodes}, nodes, n_of_outcomes)"))
b('C14', SP, ("    n_of_outcomes: int = self.outcomes.length", "    n_of_outcomes: int = sum(c for o, c in self.outcomes.items() if o.edges) or self.outcomes.length"))
b('C14', FG, ("        acc['unobserved'] = self._number_of_outcomes - total", "        acc['unobserved'] = self._number_of_outcomes - len(self.value_nodes)"))
b('C17', RG, ("            if vs != o.included_variables:", "            if len(vs) != len(o.included_variables):"))
b('C17', RG, ("            if vs != o.included_variables:", "            if not vs.issubset(o.included_variables):"))
b('C16', SP, ("                variables[node.variable] = variables.get(node.variable, set({})).union({node.value})", "                variables.setdefault(node.variable, {node.value})"))
b('C16', SP, ("frozenset({e.relation for o in", "frozenset({getattr(e.relation, 'relation', e.relation) for o in"))
b('C34', CG, ("            out_query_nodes = {node: (similarity * count, False)", "            out_query_nodes = {node: (similarity, False)"))
b('C34', CG, ("relations.get(edge.relation, 0) + count", "relations.get(edge.relation, 0) + 1"))
b('C34', CG, ("external_nodes(set(self.evidence.nodes), relation_filter)", "external_nodes(set(self.evidence.nodes))"))
b('C34', CG, ("var in self.evidence.included_variables)", "not self.evidence.included_variables.isdisjoint({var} | set(values)))"))
b('C07', SP, ("        return RelationGraph(\n            self._components_provider,", "        from .graph_components import BuilderComponentsProvider\n        return RelationGraph(\n            BuilderComponentsProvider(dict(self._components_provider.variables()), self._components_provider.relations()),"))
b('C01 C13', SP, ("        return norm_acc\n", "        self._marginals = getattr(self, '_marginals', None) or norm_acc\n        return {k: dict(v) for k, v in self._marginals.items()}\n"))
b('C02', FG, ("        self._value_nodes_dict: Dict[ValueNode, int] = value_nodes.copy()", "        self._value_nodes_dict: Dict[ValueNode, int] = value_nodes"))
b('C04', SP, ("            self.outcomes.builder(),", "            SampleSetBuilder(self._components_provider, {o: 1 for o in self.outcomes.samples()}),"))
b('C10', RG, ("        assert count >= 1, \\\n            f\"[RelationGraphBuilder.add_outcome] Expect count be >= 1, but got {count}\"\n\n        self._outcomes.add(outcome, count)\n", "        self._outcomes.add(outcome, count)\n        assert count >= 1, \\\n            f\"[RelationGraphBuilder.add_outcome] Expect count be >= 1, but got {count}\"\n\n"))
b('C11', RG, ("        assert count >= 1, ", "        assert count >= 0, "))
b('C19', SP, ("os.linesep.join(sorted([f\"{s}({c})\" for s, c in self.outcomes.items()]))", "os.linesep.join([f\"{s}({c})\" for s, c in self.outcomes.items()])"))
b('C19', FG, ("        relations = \",\".join(sorted([f\"{e.relation}({c})\" for e, c in self.relation_edges]))\n        return", "        relations = \",\".join([f\"{e.relation}({c})\" for e, c in self.relation_edges])\n        return"))
b('C19', SG, ("\"; \".join(sorted([str(e) for e in self.edges]))", "\"; \".join(str(e) for e in self.edges)"))
b('C20', SP, ("net.add_edge(ep[0].string_id + str(i), ep[1].string_id + str(i)", "net.add_edge(ep[0].string_id + str(i), ep[1].string_id + str(count)"))
b('C20', SP, ("        if self._evidence:\n", "        if self._evidence and self._evidence.edges:\n"))
b('C20', FG, ("            if var not in self.variables:\n", "            if var not in self.variables and len(values) > 1:\n"))
b('C20', AG, ("            net.add_node(var, label=label, color=color)\n", "            if color != '#000000':\n                net.add_node(var, label=label, color=color)\n"))
b('C20', SG, ("        for edge in self.edges:\n            net.add_edge(", "        for edge in self.edges:\n            if edge.relation: net.add_edge("))
b('C07', SG, ("        return id(self._components_provider) == id(other_components_provider)", "        return self._components_provider.variables() == other_components_provider.variables() \\\n            and self._components_provider.relations() == other_components_provider.relations()"))
b('C03', AG, ("            return self.variable == other.variable and self.values == other.values and self.in_query == other.in_query", "            return self.variable == other.variable and self.values == other.values"))
b('C03', FG, ("            return self.variable == other.variable and self.value_nodes == other.value_nodes", "            return self.variable == other.variable and len(self.value_nodes) == len(other.value_nodes)"))
b('C03', VG, ("            return self.nodes == other.nodes and self.edges == other.edges", "            return self.nodes == other.nodes and len(self.edges) == len(other.edges)"))
b('C03', SG, ("            return self.hash == other.hash\n", "            return hash(self) == hash(other)\n"))
b('C03', SG, ("            return self.hash == other.hash\n", "            return self.name == other.name\n"))
b('C03', SG, ("            return self.hash == other.hash\n", "            return self.nodes == other.nodes and len(self.edges) == len(other.edges)\n"))
b('C12', SP, ("            if values.issubset(s.values()):", "            if values.issubset(s.values()) and s not in ssb.samples() and (s.edges or len(values) < 2 or c > 1):"))
b('C16', RG, ("            \"number_of_outcomes\": self.outcomes.length,", "            \"number_of_outcomes\": len(self.outcomes.samples()),"))
b('C16', SG, ("                if len(ep_dif) == 1:", "                if len(ep_dif) == 1 and next(iter(ep_dif)).value is not None:"))
b('C16', SG, ("                if node in acc_nodes:\n", "                if node in internal_nodes or node in acc_nodes:\n"), ("                    acc_nodes[node] = edges\n", "                    acc_nodes[node] = set(list(edges)[:1])\n"))
b('C04', GC, ("        return f\"{self.relation}[{self.source_variable}->{self.target_variable}]\"", "        return f\"{self.relation}[{self.target_variable}->{self.source_variable}]\""))
b('C04', SG, ("DirectedRelation(source[0], target[0], relation)", "DirectedRelation(min(source[0], target[0]), max(source[0], target[0]), relation)"))
b('C06 C05', GC, ("            self.nodes[(variable, value)] = node\n", "            if value is not None:\n                self.nodes[(variable, value)] = node\n"))
b('C10', S, ("        assert sample.is_compatible(self._components_provider), \\\n            f\"[SampleSetBuilder.add]", "        self._samples.setdefault(sample, 0)\n        assert sample.is_compatible(self._components_provider), \\\n            f\"[SampleSetBuilder.add]"))
b('C10 C11', S, ("        assert sample in self._samples, \\\n            f\"[SampleSetBuilder.remove] Sample {sample} not in this sample set\"\n\n        return sample, self._samples.pop(sample)", "        count = self._samples.pop(sample, 0)\n        assert count or len(self._samples) > 0, 'unknown'\n        return sample, count"))
b('C08', SG, ("        assert edge.endpoints not in self._endpoints, ", "        assert edge not in self._edges, "))
b('C09 C10', SG, ("                        or edge.relation == new_endpoints[edge.endpoints].relation, ", "                        or edge.relation == self._endpoints.get(edge.endpoints, edge).relation or True, "))
b('C02', SP, ("        node_acc: Dict[Any, Dict[ValueNode, int]] = {}\n        edge_acc: Dict[frozenset[Any], Dict[RelationEdge, int]] = {}\n", "        node_acc, edge_acc = {}, {}\n        self._last_fold = edge_acc\n"))
b('C01', SG, ("        acc_nodes = self.belt_nodes(internal_nodes, relation_filter)\n", "        acc_nodes = self.belt_nodes(internal_nodes, relation_filter)\n        internal_nodes |= acc_nodes.keys()\n"))
b('C02', SP, ("        variables_to_check = variables if variables else {v for v, _ in self._components_provider.variables()}\n", "        variables_to_check = variables if variables else {v for v, _ in self._components_provider.variables()}\n        variables_to_check &= {v for v, _ in self.included_variables()}\n"))
