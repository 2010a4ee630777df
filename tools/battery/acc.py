"""accumulations: marginals, folding, activation"""
S = 'relnet/sample_space.py'
C = 'relnet/conditional_graph.py'
GROUP = """                    if in_var in group_acc:
                        group_acc[in_var][in_val] = group_acc[in_var].get(in_val, 0) + count
                    else:
                        group_acc[in_var] = {in_val: count}
"""
NORM = """            if unobserved:
                values['u'] = self.outcomes.length - c_sum
                norm_acc[in_val] = {v: p / self.outcomes.length for v, p in values.items()}
            else:
                norm_acc[in_val] = {v: p / c_sum for v, p in values.items()}
"""
FN = """                if node.variable in node_acc:
                    node_acc[node.variable][node] = node_acc[node.variable].get(node, 0) + count
                else:
                    node_acc[node.variable] = {node: count}
"""
FE = """                if endpoints in edge_acc:
                    edge_acc[endpoints][edge] = edge_acc[endpoints].get(edge, 0) + count
                else:
                    edge_acc[endpoints] = {edge: count}
"""
AE = """                if endpoints in grouped_relations:
                    relations, in_query = grouped_relations[endpoints]
                    assert edge_in_query == in_query, \\
                        "[InferenceGraph.active_values] All edges with same endpoints should belong to " \\
                        "query or not, this is a bug"
                    relations[edge.relation] = relations.get(edge.relation, 0) + count
                else:
                    grouped_relations[endpoints] = ({edge.relation: count}, edge_in_query)
"""
M, F, A = 'C13', 'C14', 'C34'
CASES = [
    ('a1', 'ok', M, S, [(GROUP, """                    values = group_acc.setdefault(in_var, {})
                    values[in_val] = values.get(in_val, 0) + count
""")]),
    ('a2', 'ok', M, S, [(GROUP, """                    if in_var not in group_acc:
                        group_acc[in_var] = {}
                    counts = group_acc[in_var]
                    if in_val in counts:
                        counts[in_val] += count
                    else:
                        counts[in_val] = count
""")]),
    ('a3', 'ok', M, S, [(NORM, """            total = c_sum
            if unobserved:
                total = self.outcomes.length
                values['u'] = total - c_sum
            norm_acc[in_val] = {v: p / total for v, p in values.items()}
""")]),
    ('a4', 'ok', M, S, [("                if in_var in variables_to_check:\n                    in_val = outcome.value_for_variable(in_var)\n" + GROUP,
                         "                if in_var not in variables_to_check:\n                    continue\n                in_val = outcome.value_for_variable(in_var)\n" + GROUP.replace('\n    ', '\n')[4:])]),
    ('a5', 'ok', M, S, [("            for in_var in outcome.included_variables:\n                if in_var in variables_to_check:\n",
                         "            for in_var in variables_to_check:\n                if in_var in outcome.included_variables:\n")]),
    ('a6', 'ok', M, S, [("            for in_var in outcome.included_variables:\n                if in_var in variables_to_check:\n",
                         "            for in_var in outcome.included_variables.intersection(variables_to_check):\n                if True:\n")]),
    ('a7', 'bug', M, S, [("group_acc[in_var].get(in_val, 0) + count", "group_acc[in_var].get(in_val, 0) + 1")]),
    ('a8', 'bug', M, S, [("                        group_acc[in_var] = {in_val: count}", "                        group_acc[in_var] = {in_val: 1}")]),
    ('a9', 'bug', M, S, [("{v: p / c_sum for v, p in values.items()}", "{v: p / self.outcomes.length for v, p in values.items()}")]),
    ('a10', 'bug', M, S, [("values['u'] = self.outcomes.length - c_sum", "values['u'] = len(self.outcomes.samples()) - c_sum")]),
    ('a11', 'bug', M, S, [("                if in_var in variables_to_check:\n", "                if in_var in variables_to_check or not unobserved:\n")]),
    ('a12', 'bug', M, S, [("variables if variables else {v for", "variables if variables is not None else {v for")]),
    ('a13', 'ok', F, S, [(FN, """                tally = node_acc.setdefault(node.variable, {})
                tally[node] = tally.get(node, 0) + count
"""), (FE, """                tally = edge_acc.setdefault(endpoints, {})
                tally[edge] = tally.get(edge, 0) + count
""")]),
    ('a14', 'ok', F, S, [(FE, """                if endpoints not in edge_acc:
                    edge_acc[endpoints] = {}
                edge_acc[endpoints][edge] = edge_acc[endpoints].get(edge, 0) + count
""")]),
    ('a15', 'ok', F, S, [("        for outcome, count in self.outcomes.items():\n            for node in outcome.nodes:\n                if node.variable in node_acc",
                          "        for outcome, count in self.outcomes.items():\n            for node in outcome.nodes:\n                known = node.variable in node_acc\n                if known")]),
    ('a16', 'ok', F, S, [("            for edge in outcome.edges:\n                endpoints = frozenset({ep",
                          "        for outcome, count in self.outcomes.items():\n            for edge in outcome.edges:\n                endpoints = frozenset({ep")]),
    ('a17', 'bug', F, S, [("edge_acc[endpoints].get(edge, 0) + count", "edge_acc[endpoints].get(edge, count)")]),
    ('a18', 'bug', F, S, [("                    edge_acc[endpoints] = {edge: count}", "                    edge_acc[endpoints] = {edge: 1}")]),
    ('a19', 'bug', F, S, [("node_acc[node.variable].get(node, 0) + count", "node_acc[node.variable].get(node, 1) + count")]),
    ('a20', 'bug', F, S, [("            for edge in outcome.edges:\n                endpoints = frozenset({ep",
                           "            for edge in sorted(outcome.edges, key=str)[1:] if len(outcome.edges) > 3 else outcome.edges:\n                endpoints = frozenset({ep")]),
    ('a21', 'ok', A, C, [(AE, AE.replace("relations[edge.relation] = relations.get(edge.relation, 0) + count", """if edge.relation in relations:
                        relations[edge.relation] += count
                    else:
                        relations[edge.relation] = count"""))]),
    ('a22', 'ok', A, C, [("            out_query_nodes = {node: (similarity * count, False) for node in external_nodes.keys()}",
                          "            weight = similarity * count\n            out_query_nodes = {node: (weight, False) for node in external_nodes}")]),
    ('a23', 'ok', A, C, [("{node: (1.0 * count, True) for node in self.evidence.nodes.intersection(outcome.nodes)}",
                          "{node: (count, True) for node in outcome.nodes if node in self.evidence.nodes}")]),
    ('a24', 'ok', A, C, [("            for node, (weight, node_in_query) in (out_query_nodes | in_query_nodes).items():\n                values, in_query = grouped_values[node.variable]\n",
                          "            weighted = out_query_nodes | in_query_nodes\n            for node in weighted:\n                weight, node_in_query = weighted[node]\n                values, in_query = grouped_values[node.variable]\n")]),
    ('a25', 'bug', A, C, [("(similarity * count, False)", "(similarity, False)")]),
    ('a26', 'bug', A, C, [("(1.0 * count, True)", "(1.0, True)")]),
    ('a27', 'bug', A, C, [("for node in self.evidence.nodes.intersection(outcome.nodes)}", "for node in self.evidence.nodes}")]),
    ('a28', 'bug', A, C, [("values[node.value] += weight", "values[node.value] = weight")]),
    ('a29', 'bug', A, C, [("relations.get(edge.relation, 0) + count", "relations.get(edge.relation, 0) + 1")]),
    ('a30', 'bug', A, C, [("grouped_relations[endpoints] = ({edge.relation: count}, edge_in_query)", "grouped_relations[endpoints] = ({edge.relation: 1}, edge_in_query)")]),
    ('a31', 'bug', A, C, [("{ActiveNode(var, {v: w / self.outcomes.length for v, w in values.items()}, in_query)", "{ActiveNode(var, {v: w / self.outcomes.length for v, w in values.items() if w}, in_query)")]),
    ('a32', 'bug', A, C, [("outcome.external_nodes(set(self.evidence.nodes), relation_filter)", "outcome.external_nodes(set(self.evidence.nodes))")]),
    ('a33', 'bug', A, C, [("similarity = outcome.similarity(self.evidence)", "similarity = 1.0 if outcome.is_subgraph(self.evidence) else outcome.similarity(self.evidence)")]),
    ('a34', 'ok', A, C, [("            for edge, edge_in_query in out_query_edges | in_query_edges:", "            for edge, edge_in_query in in_query_edges.union(out_query_edges):")]),
    ('a35', 'ok', M, S, [(GROUP, """                    previous = group_acc.get(in_var, {})
                    previous[in_val] = previous.get(in_val, 0) + count
                    group_acc[in_var] = previous
""")]),
    ('a36', 'bug', 'C16', 'relnet/sample_graph.py', [("self.external_nodes(internal_nodes.union(acc_nodes.keys()), relation_filter)", "self.external_nodes(internal_nodes.union(acc_nodes.keys()))")]),
    ('a37', 'bug', 'C16', 'relnet/sample_graph.py', [("                    acc_nodes[node] = edges\n", "                    acc_nodes[node] = set()\n")]),
    ('a38', 'ok', 'C16', 'relnet/sample_graph.py', [("        if acc_nodes:\n            for node, edges in self.ext", "        if not acc_nodes:\n            return {}\n        if True:\n            for node, edges in self.ext")]),
]
