"""Counts in sample sets (written against constructors and public observers only)."""


class samples_items:
    """C11: the observed (sample, count) pairs are exactly the given ones"""
    target = 'Samples.items'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return SampleSet(p, d).items()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return {(s, d[s]) for s in d}


class set_length:
    """C11: the length is the sum of counts"""
    target = 'SampleSet.__len__'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        s = SampleSet(p, d)
        return (len(s), s.length, SampleSetBuilder(p, d).length())

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        n = sum(d[s] for s in d)
        return (n, n, n)


class set_union:
    """C11: union adds the counts of each sample"""
    target = 'SampleSet.union'
    rejects = 'atmost'

    def pre(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int]):
        return all(s.is_compatible(p) for s in e)

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int]):
        return dict(SampleSet(p, d).union(SampleSet(p, e)).items())

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int]):
        return {s: d.get(s, 0) + e.get(s, 0) for s in set(d) | set(e)}


class builder_add:
    """C11: adding a sample adds its count and touches no other sample"""
    target = 'SampleSetBuilder.add'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph, c: int):
        b = SampleSetBuilder(p, d)
        b.add(s, c)
        return (dict(b.items()), dict(b.build().items()), d)

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph, c: int):
        assert s.is_compatible(p)
        r = {x: d.get(x, 0) + (c if x == s else 0) for x in set(d) | {s}}
        return (r, r, d)


class builder_remove:
    """C11: removing a sample removes exactly it"""
    target = 'SampleSetBuilder.remove'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph):
        b = SampleSetBuilder(p, d)
        r = b.remove(s)
        return (r, dict(b.items()), d)

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph):
        assert s in d
        return ((s, d[s]), {x: d[x] for x in d if x != s}, d)


class set_observers:
    """C11: samples(), truth and count_of agree with the content"""
    target = 'Samples.samples'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph):
        x = SampleSet(p, d)
        return (x.samples(), bool(x), x.count_of(s))

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph):
        assert s in d
        return (set(d), bool(d), d[s])


class builder_observers:
    """C11: builders observe the same content as sets"""
    target = 'SampleSetBuilder.__init__'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph):
        x = SampleSetBuilder(p, d)
        return (x.samples(), x.items(), x.count_of(s), x.copy().items(), x.build().items(), x.empty().items(),
                SampleSet(p, d).builder().items())

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph):
        assert s in d
        i = set(d.items())
        return (set(d), i, d[s], i, i, set(), i)


class set_equality:
    """C03: sample sets are equal exactly when they hold the same samples with the same counts"""
    target = 'SampleSet.__eq__'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int]):
        return SampleSet(p, d).__eq__(SampleSet(p, e))

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int]):
        return set(d) == set(e) and all(d[s] == e[s] for s in d)


class set_filter:
    """C11: filtering keeps exactly the selected samples with their counts"""
    target = 'SampleSet.filter_samples'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], v: Any):
        return SampleSet(p, d).filter_samples(lambda s: v in s.included_variables).items()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], v: Any):
        return {(s, d[s]) for s in d if v in s.included_variables}


class set_add_all:
    """C11: adding a whole set adds all its counts"""
    target = 'SampleSetBuilder.add_all'
    rejects = 'atmost'

    def pre(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int]):
        return all(s.is_compatible(p) for s in e)

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int]):
        return SampleSetBuilder(p, d).add_all(SampleSet(p, e)).items()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int]):
        return {(s, d.get(s, 0) + e.get(s, 0)) for s in set(d) | set(e)}


class set_remove_all:
    """C11: removing a whole set removes exactly its samples"""
    fails = 'ignore'
    target = 'SampleSetBuilder.remove_all'
    rejects = 'ignore'

    def pre(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int]):
        return all(s in d for s in e)

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int]):
        return SampleSetBuilder(p, d).remove_all(SampleSet(p, e)).items()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], e: Dict[SampleGraph, int]):
        return {(s, d[s]) for s in d if s not in e}


class set_values_match:
    """C09: values match exactly when no variable has two different values in the set"""
    target = 'SampleSet.is_all_values_match'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return SampleSet(p, d).is_all_values_match()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return not any(n.variable == m.variable and n.value != m.value
                       for s in d for n in s.nodes for t in d for m in t.nodes)

    def spec_2(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        # the same by C03: nodes of one variable differ exactly when their values do
        return not any(n.variable == m.variable and n != m for s in d for n in s.nodes for t in d for m in t.nodes)


class set_have:
    """C16: a set has a value / variable exactly when one of its samples has"""
    target = 'SampleSet.have_value'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], v: Any, x: Any):
        s = SampleSet(p, d)
        return (s.have_value(v, x), s.have_variable(v))

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], v: Any, x: Any):
        return (any(n.variable == v and n.value == x for s in d for n in s.nodes),
                any(n.variable == v for s in d for n in s.nodes))


class set_probabilities:
    """C13: the probability of a sample is its count over the total count"""
    target = 'SampleSet.probabilities'
    rejects = 'ignore'

    def pre(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return any(True for s in d)

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        return SampleSet(p, d).probabilities()

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int]):
        n = sum(d[s] for s in d)
        return {(s, d[s] / n) for s in d}


class set_probability_of:
    """C13: the probability of one sample is its count over the total count"""
    target = 'SampleSet.probability_of'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph):
        return SampleSet(p, d).probability_of(s)

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph):
        assert s in d
        return d[s] / sum(d[x] for x in d)


class samples_compatible:
    """C07: compatibility of sample sets is identity of the vocabulary"""
    target = 'Samples.is_compatible'

    def code(p: SampleGraphComponentsProvider, q: SampleGraphComponentsProvider, d: Dict[SampleGraph, int],
             e: Dict[SampleGraph, int]):
        return SampleSet(p, d).is_compatible(SampleSet(q, e))

    def spec(p: SampleGraphComponentsProvider, q: SampleGraphComponentsProvider, d: Dict[SampleGraph, int],
             e: Dict[SampleGraph, int]):
        return p is q


class union_gate:
    """C07: sets over different vocabularies are never united"""
    fails = 'ignore'
    target = 'SampleSet.union'
    rejects = 'atleast'

    def code(p: SampleGraphComponentsProvider, q: SampleGraphComponentsProvider, d: Dict[SampleGraph, int],
             e: Dict[SampleGraph, int]):
        SampleSet(p, d).union(SampleSet(q, e))

    def spec(p: SampleGraphComponentsProvider, q: SampleGraphComponentsProvider, d: Dict[SampleGraph, int],
             e: Dict[SampleGraph, int]):
        assert p is q


class add_gate:
    """C07: a sample of another vocabulary is never added"""
    target = 'SampleSetBuilder.add'
    rejects = 'atleast'

    def code(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph, c: int):
        SampleSetBuilder(p, d).add(s, c)

    def spec(p: SampleGraphComponentsProvider, d: Dict[SampleGraph, int], s: SampleGraph, c: int):
        assert s.is_compatible(p)
