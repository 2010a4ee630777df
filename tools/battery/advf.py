"""Planted bugs, another round: the relation library, with triggers that ordinary use misses."""
S = 'relnet/sample_set.py'
SG = 'relnet/sample_graph.py'
CASES = []


def b(pr, f, *e):
    CASES.append((f'f{len(CASES) + 1:02}', 'bug', pr, f, list(e)))


b('C15', SG, ("        return len(intersect_hash) / (len(intersect_hash) + len(differ_hash))", "        return len(intersect_hash) / max(len(self.hash), len(other.hash))"))
b('C15', SG, ("        if not intersect_hash and not differ_hash:\n            return 1.0", "        if not intersect_hash or not differ_hash:\n            return 1.0"))
b('C16', SG, ("                if len(ep_dif) == 1:", "                if ep_dif:"))
b('C16', SG, ("self.external_nodes(internal_nodes.union(acc_nodes.keys()), relation_filter).items()", "self.external_nodes(internal_nodes.union(acc_nodes.keys())).items()"))
b('C16', SG, ("                    acc_nodes[node].update(edges)\n                else:", "                    acc_nodes[node] = edges\n                else:"))
b('C16', SG, ("self.external_nodes(internal_nodes.union(acc_nodes.keys()), relation_filter)", "self.external_nodes(set(acc_nodes.keys()), relation_filter)"))
b('C16', SG, ("{e for e in self.edges if {ep.variable for ep in e.endpoints}.issubset(variables)}", "{e for e in self.edges if not {ep.variable for ep in e.endpoints}.isdisjoint(variables)}"))
b('C18', SG, ("self if (transformed_nodes == self.nodes and transformed_edges == self.edges)", "self if (len(transformed_nodes) == len(self.nodes) and transformed_edges == self.edges)"))
b('C18', SG, ("if not {e.variable for e in edge.endpoints}.isdisjoint(to_replace.keys()) else edge", "if {e.variable for e in edge.endpoints}.issubset(to_replace.keys()) else edge"))
b('C16', SG, ("            if n.variable == variable:\n                return n.value\n        return None", "            if n.variable == variable:\n                return n.value or None\n        return None"))
b('C08 C09', SG, ("                        or edge.relation == new_endpoints[edge.endpoints].relation, ", "                        or edge.endpoints in self._endpoints and edge.relation == new_endpoints[edge.endpoints].relation or len(new_edges) > 2, "))
b('C08 C10', SG, ("            assert len(sample.nodes) == 1 and (sample.nodes.issubset(self._nodes) or not self._nodes), ", "            assert len(sample.nodes) == 1 and (sample.nodes.issubset(self._nodes) or not self._edges), "))
b('C08 C09', SG, ("            return not edge.endpoints.isdisjoint(new_nodes) or not new_nodes", "            return not edge.endpoints.isdisjoint(new_nodes) or not new_edges"))
b('C03', SG, ("            return self.hash == other.hash", "            return self.nodes == other.nodes and len(self.edges) == len(other.edges)"))
b('C03', S, ("            return self._samples == other._samples", "            return self._samples.keys() == other._samples.keys() and self.length == other.length"))
b('C36', S, ("sample_acc[key] = {sample: count}\n\n        def", "sample_acc[key] = {sample: 1}\n\n        def"))
b('C36', S, ("sample_acc.pop(k_a) | sample_acc.pop(k_b)", "sample_acc.pop(k_a) if len(k_a) > len(k_b) else sample_acc.pop(k_b)"))
b('C09', S, ("                    if var_acc[node.variable] != node.value:", "                    if var_acc[node.variable] != node.value and len(var_acc) < 20:"))
b('C09', S, ("                else:\n                    var_acc[node.variable] = node.value", "                elif node.value:\n                    var_acc[node.variable] = node.value"))
b('C13', S, ("        return self._samples[sample] / self.length", "        return self._samples[sample] // self.length if self._samples[sample] == 0 else self._samples[sample] / max(self.length, len(self._samples), 2)"))
b('C16', S, ("            if o.have_variable(variable):\n                return True\n        return False", "            if not o.have_variable(variable):\n                return False\n        return True"))
b('C11', S, ("        return sample, self._samples.pop(sample)", "        return sample, self._samples.pop(sample) if self._samples[sample] else 0"))
b('C11', S, ("            self._samples[sample] += count\n", "            self._samples[sample] += count\n            if not self._samples[sample]:\n                del self._samples[sample]\n"))
b('C11', S, ("            return sample_sets[0].union(SampleSetBuilder.join_sample_set(sample_sets[1:]))", "            return sample_sets[0].union(SampleSetBuilder.join_sample_set([s for s in sample_sets[1:] if s != sample_sets[0]] or sample_sets[:1]))"))
b('C35 C09', S, ("        return bool(self._samples) and self.is_all_values_match()", "        return self.is_all_values_match()"))
b('C35', S, ("        return sgb.build(), list(self._samples.values())", "        return sgb.build(), list(set(self._samples.values()))"))
b('C07', S, ("        assert self.is_compatible(other), \\\n            f\"[SampleSet.union]", "        assert not other or self.is_compatible(other) or len(self) == 0, \\\n            f\"[SampleSet.union]"))
b('C01 C02', S, ("        super(SampleSet, self).__init__(components_provider, samples.copy())", "        super(SampleSet, self).__init__(components_provider, samples.copy() if len(samples) > 1 else samples)"))
b('C02', S, ("        super(SampleSetBuilder, self).__init__(components_provider, samples.copy() if samples else {})", "        super(SampleSetBuilder, self).__init__(components_provider, {} if samples is None else samples if not samples else samples.copy())"))
