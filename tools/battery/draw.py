SG, FG, AG, SS, GC, ST = ('relnet/sample_graph.py', 'relnet/folded_graph.py', 'relnet/activation_graph.py', 'relnet/sample_space.py',
                      'relnet/graph_components.py', 'relnet/sample_set.py')
A = 'C19 C20'
CASES = [
    # bugs
    ('b1', 'bug', A, SG, [("if c.isalnum() or c in {'_', '-', '(', ')'})", "if c.isalnum() or c in {'_', '-', '(', ')', '/'})")]),
    ('b2', 'bug', A, SG, [('        for edge in self.edges:\n            net.add_edge(edge.a.string_id', '        for edge in self.edges:\n          if edge.a.variable != edge.relation:\n            net.add_edge(edge.a.string_id')]),
    ('b3', 'bug', A, SG, [('net.add_edge(edge.a.string_id, edge.b.string_id, label=str(edge.relation))', 'net.add_edge(edge.a.string_id, edge.a.string_id, label=str(edge.relation))')]),
    ('b4', 'bug', A, FG, [('            if var not in self.variables:\n', '            if var not in self.variables and len(values) > 1:\n')]),
    ('b5', 'bug', A, FG, [("if c.isalnum() or c == '_')", "if not c.isspace() or c == '_')")]),
    ('b6', 'bug', A, AG, [('(name if name else self.name)', '(self.name if self.name else name)')]),
    ('b7', 'bug', A, AG, [('        for edge in self.edges:\n            ep', '        for edge in [e for e in self.edges if e.relations]:\n            ep')]),
    ('b8', 'bug', A, SS, [('for node in node_list[1:]:', 'for node in node_list[1:-1]:')]),
    ('b9', 'bug', A, SS, [('ep[0].string_id + str(i), ep[1].string_id + str(i), label', 'ep[0].string_id + str(i), ep[1].string_id, label')]),
    ('b10', 'bug', A, SS, [('node.string_id + "_query", label=node.string_id, color', 'node.string_id, label=node.string_id, color')]),
    ('b11', 'bug', A, SS, [('self._evidence.edges', 'list(self._evidence.edges)[1:]')]),
    ('b12', 'bug', A, SS, [('net.show(f"{file_name}.html")', 'net.show(f"{name or self._name}.html")')]),
    ('b13', 'bug', A, SS, [('os.linesep.join(sorted([f"{s}({c})" for s, c in self.outcomes.items()]))', 'os.linesep.join([f"{s}({c})" for s, c in self.outcomes.items()])')]),
    ('b14', 'bug', 'C03 C19', ST, [('sorted(', 'list(')]),
    ('b15', 'bug', A, GC, [('se = sorted([str(ep) for ep in self.endpoints])', 'se = [str(self.a), str(self.b)]')]),
    ('b16', 'bug', A, AG, [('ep = sorted(self.endpoints)', 'ep = tuple(self.endpoints)')]),
    # refactorings
    ('k1', 'ok', A, SG, [("""        name = "".join(c for c in self.name if c.isalnum() or c in {'_', '-', '(', ')'})""", """        allowed = '_-()'
        name = ""
        for c in self.name:
            if c.isalnum() or c in allowed:
                name += c""")]),
    ('k2', 'ok', A, SG, [("c in {'_', '-', '(', ')'}", "c in ('_', '-', '(', ')')")]),
    ('k3', 'ok', A, SG, [("c in {'_', '-', '(', ')'}", "c in '_-()'")]),
    ('k4', 'ok', A, SG, [("c.isalnum() or c in {'_', '-', '(', ')'}", "c in {'(', ')', '_', '-'} or c.isalnum()")]),
    ('k5', 'ok', A, SG, [("net.add_edge(edge.a.string_id, edge.b.string_id, label=str(edge.relation))", "source, target = edge.endpoints\n            net.add_edge(source.string_id, target.string_id, label=f'{edge.relation}')")]),
    ('k6', 'ok', A, FG, [("ep = list(edge.endpoints)\n            relations", "source, target = edge.endpoints\n            relations"), ('net.add_edge(ep[0], ep[1]', 'net.add_edge(source, target')]),
    ('k7', 'ok', A, FG, [("ep = list(edge.endpoints)\n            relations", "ep = sorted(edge.endpoints)\n            relations")]),
    ('k8', 'ok', A, FG, [("(name if name else self.name)", "(name or self.name)")]),
    ('k9', 'ok', A, FG, [("",'')]+[('        file_name = "".join(c for c in (name if name else self.name) if c.isalnum() or c == \'_\')\n\n        for node', '        file_name = self._file_name(name)\n\n        for node'), ('    def folded_node(', '    def _file_name(self, name):\n        chosen = name if name else self.name\n        return "".join(filter(lambda c: c.isalnum() or c == \'_\', chosen))\n\n    def folded_node(')]),
    ('k10', 'ok', A, FG, [('            if var not in self.variables:\n                values', '            if var in self.variables:\n                continue\n            else:\n                values')]),
    ('k11', 'ok', A, AG, [('        for var, values in self._components_provider.variables():\n            if var not in active_nodes:  # Not in inference graph', '        for var, values in self._components_provider.variables():\n            node = active_nodes.get(var)\n            if node is None:  # Not in inference graph'), ('                node = active_nodes[var]\n', '')]),
    ('k12', 'ok', A, SS, [('''            node_list = list(outcome.nodes)
            head_node = node_list[0]
            net.add_node(head_node.string_id + str(i), label=f"{head_node.string_id}@{outcome.name}({count})")

            for node in node_list[1:]:
                net.add_node(node.string_id + str(i), label=node.string_id)
''', '''            for j, node in enumerate(outcome.nodes):
                label = f"{node.string_id}@{outcome.name}({count})" if j == 0 else node.string_id
                net.add_node(node.string_id + str(i), label=label)
''')]),
    ('k13', 'ok', A, SS, [('''            node_list = list(outcome.nodes)
            head_node = node_list[0]
''', '''            head_node, *node_list = outcome.nodes
'''), ('node_list[1:]', 'node_list')]),
    ('k14', 'ok', A, SS, [('''            for edge in outcome.edges:
                ep = list(edge.endpoints)
                net.add_edge(ep[0].string_id + str(i), ep[1].string_id + str(i), label=str(edge.relation))
''', '''            for edge in outcome.edges:
                a, b = [f"{n.string_id}{i}" for n in edge.endpoints]
                net.add_edge(a, b, label=str(edge.relation))
''')]),
    ('k15', 'ok', A, SS, [('        if self._evidence:\n            for node in', '        if self._evidence is not None:\n            for node in')]),
    ('k16', 'ok', A, SS, [('        for i, (outcome, count) in enumerate(self.outcomes.items()):\n', '        for i, outcome in enumerate(self.outcomes):\n            count = self.outcomes[outcome]\n')]),
    ('k17', 'ok', A, SS, [('os.linesep.join(sorted([f"{s}({c})" for s, c in self.outcomes.items()]))', 'os.linesep.join(sorted("{}({})".format(s, c) for s, c in self.outcomes.items()))')]),
    ('k18', 'ok', A, SG, [('''        if self.edges:
            return "{" + "; ".join(sorted([str(e) for e in self.edges])) + "}"
        elif self.nodes:
            return "{" + str(list(self.nodes)[0]) + "}"
        else:
            return "{}"''', '''        parts = [str(x) for x in (self.edges if self.edges else self.nodes)]
        return "{" + "; ".join(sorted(parts)) + "}"''')]),
    ('k19', 'ok', A, GC, [('se = sorted([str(ep) for ep in self.endpoints])', 'se = sorted((str(self.a), str(self.b)))')]),
    ('k20', 'ok', A, GC, [('se = sorted([str(ep) for ep in self.endpoints])', 'se = sorted(map(str, self.endpoints))')]),
    ('k21', 'ok', A, SG, [('''        for node in self.nodes:
            net.add_node(node.string_id, label=node.string_id)
''', '''        for node in sorted(self.nodes, key=lambda n: n.string_id):
            net.add_node(node.string_id, label=node.string_id)
''')]),
    ('k22', 'ok', A, SG, [('''        for node in self.nodes:
            net.add_node(node.string_id, label=node.string_id)
''', '''        ids = [node.string_id for node in self.nodes]
        for i in ids:
            net.add_node(i, label=i)
''')]),
]
