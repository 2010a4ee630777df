PRE = '''
from relnet import *
from relnet.relation_graph import RelationGraphBuilder
from relnet.sample_graph import SampleGraphBuilder, SampleGraph
from relnet.sample_set import SampleSet, SampleSetBuilder
from relnet.graph_components import BuilderComponentsProvider, DirectedRelation
'''
SEEDS = {
    'S01': dict(property='C11', needs='adding a whole set to a builder that already holds one of its samples with a higher count',
                what='add_all keeps the larger count instead of adding the counts up',
                edits=[('relnet/sample_set.py', "        for s, c in samples.items():\n            self.add(s, c)\n        return self",
                        "        for s, c in samples.items():\n            if self._samples.get(s, 0) <= c:\n                self.add(s, c)\n        return self")],
                demo=PRE + '''
p = BuilderComponentsProvider({'a': {1, 2}}, {'r'})
s = SampleGraphBuilder(p).build_single_node('a', 1)
assert SampleSetBuilder(p, {s: 3}).add_all(SampleSet(p, {s: 1})).build().count_of(s) == 4
'''),
    'S02': dict(property='C12', needs='an outcome equal to the evidence in all nodes but related differently, with a shared edge elsewhere',
                what='an outcome that shares an edge with the evidence survives conditioning without containing it',
                edits=[('relnet/relation_graph.py', "evidence.included_variables.isdisjoint(outcome.included_variables)",
                        "evidence.values().isdisjoint(outcome.values())")],
                demo=PRE + '''
b = RelationGraphBuilder({'a': {1, 2}, 'b': {1, 2}}, {'r', 's'})
o1 = b.sample_builder().add_relation({('a', 1), ('b', 1)}, 'r').build()
o2 = b.sample_builder().add_relation({('a', 2), ('b', 2)}, 's').build()
b.add_outcome(o1, 1); b.add_outcome(o2, 1)
g = b.build()
c = g.conditional_graph(o1)
assert set(c.outcomes.samples()) == {o1}, c.outcomes
'''),
    'S03': dict(property='C16', needs='a relation filter of three or more relations and a neighbour reached by another relation',
                what='with more than two relations in the filter every neighbour is reported',
                edits=[('relnet/sample_graph.py', "                if e.is_endpoint(center) and (not relation_filter or (e.relation in relation_filter))}",
                        "                if e.is_endpoint(center) and (not relation_filter or len(relation_filter) > 2 or (e.relation in relation_filter))}")],
                demo=PRE + '''
p = BuilderComponentsProvider({'a': {1}, 'b': {1}}, {'r', 's', 't', 'u'})
g = SampleGraphBuilder(p).add_relation({('a', 1), ('b', 1)}, 'r').build()
c = p.get_node('a', 1)
assert g.neighboring_values(c, {'s', 't', 'u'}) == {}
'''),
    'S04': dict(property='C18', needs='replacing a value in a sample by a mapping that also names a variable the sample lacks',
                what='edges keep their old endpoints when the mapping names a variable outside the sample',
                edits=[('relnet/sample_graph.py', "                 if not {e.variable for e in edge.endpoints}.isdisjoint(to_replace.keys()) else edge)",
                        "                 if {v for v in to_replace if v in self.included_variables} == to_replace.keys() and\n                 not {e.variable for e in edge.endpoints}.isdisjoint(to_replace.keys()) else edge)")],
                demo=PRE + '''
p = BuilderComponentsProvider({'a': {1, 2}, 'b': {1, 2}, 'c': {1}}, {'r'})
g = SampleGraphBuilder(p).add_relation({('a', 1), ('b', 1)}, 'r').build()
h = g.transform_with_replaced_values({'a': 2, 'c': 1})
assert {n for e in h.edges for n in e.endpoints} == set(h.nodes)
'''),
    'S05': dict(property='C01', needs='building a sample, then continuing with the same builder',
                what='a sample built without edges shares the node set of its builder and grows when the builder does',
                edits=[('relnet/sample_graph.py', "        return SampleGraph(self._components_provider, frozenset(self._nodes), frozenset(self._edges), self._name)",
                        "        nodes = frozenset(self._nodes) if self._edges else self._nodes\n        return SampleGraph(self._components_provider, nodes, frozenset(self._edges), self._name)")],
                demo=PRE + '''
p = BuilderComponentsProvider({'a': {1}, 'b': {1}}, {'r'})
b = SampleGraphBuilder(p).join_sample(SampleGraphBuilder(p).build_single_node('a', 1))
s = b.build()
b.add_relation({('a', 1), ('b', 1)}, 'r')
assert s.values() == {('a', 1)}, s.values()
'''),
    'S06': dict(property='C02', needs='copying a sample builder, adding a relation to the copy and the same one to the original',
                what='the copy of a sample builder shares the map of related endpoints with the original',
                edits=[('relnet/sample_graph.py', "        return SampleGraphBuilder(self._components_provider, self._name, set(self._nodes), set(self._edges))",
                        "        copied = SampleGraphBuilder(self._components_provider, self._name, set(self._nodes), set(self._edges))\n        copied._endpoints = self._endpoints\n        return copied")],
                demo=PRE + '''
import copy
p = BuilderComponentsProvider({'a': {1}, 'b': {1}}, {'r'})
b = SampleGraphBuilder(p)
c = copy.copy(b)
c.add_relation({('a', 1), ('b', 1)}, 'r')
b.add_relation({('a', 1), ('b', 1)}, 'r')
'''),
    'S07': dict(property='C10', needs='a refused relation followed by another request to the same builder',
                what='a relation refused because its endpoints are already related still adds its nodes',
                edits=[('relnet/sample_graph.py', """        assert edge.endpoints not in self._endpoints, \\
            f"[SampleGraphBuilder.add_relation] Edge {edge} was added previously"

        self._edges.add(edge)
""", """        self._edges.add(edge)
        assert edge.endpoints not in self._endpoints, \\
            f"[SampleGraphBuilder.add_relation] Edge {edge} was added previously"

""")],
                demo=PRE + '''
p = BuilderComponentsProvider({'a': {1}, 'b': {1}}, {'r', 's'})
b = SampleGraphBuilder(p).add_relation({('a', 1), ('b', 1)}, 'r')
try:
    b.add_relation({('a', 1), ('b', 1)}, 's')
except AssertionError:
    pass
assert len(b.build().edges) == 1
'''),
    'S08': dict(property='C01', needs='two searches for different values of the same variables',
                what='found outcomes are remembered per searched variables, ignoring the searched values',
                edits=[('relnet/sample_space.py', "        ssb = SampleSetBuilder(self._components_provider)\n\n        for s, c in self.outcomes.items():\n            if values.issubset(s.values()):\n                ssb.add(s, c)\n\n        return ssb.build()",
                        "        key = frozenset({var for var, _ in values})\n        if key not in self._found:\n            ssb = SampleSetBuilder(self._components_provider)\n            for s, c in self.outcomes.items():\n                if values.issubset(s.values()):\n                    ssb.add(s, c)\n            self._found[key] = ssb.build()\n        return self._found[key]"),
                       ('relnet/sample_space.py', "        self.outcomes: SampleSet = outcomes\n", "        self.outcomes: SampleSet = outcomes\n        self._found: Dict[frozenset[Any], SampleSet] = {}\n")],
                demo=PRE + '''
b = RelationGraphBuilder({'a': {1, 2}}, {'r'})
o1 = b.sample_builder().build_single_node('a', 1)
o2 = b.sample_builder().build_single_node('a', 2)
b.add_outcome(o1, 1); b.add_outcome(o2, 1)
g = b.build()
g.find_for_values({('a', 1)})
assert g.find_for_values({('a', 2)}).samples() == frozenset({o2})
'''),
}
