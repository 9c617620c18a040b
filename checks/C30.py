import functools

import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme.active_learning.factorization.partitioning.learn import BruteForceSelector, GreedySelector
from aideme.active_learning.factorization.partitioning.linear import FactorizedLinearClassifier

check = core.Check('C30', rule='random losses for every partition of up to 7 attributes, and random bounds; the learner is a double handing out these losses; non-trivial: the selected partition is neither '
                   'one block nor single attributes', assumptions=['the number of partitions is not bounded for greedy selection (known finding)'])


def set_partitions(items):
    if not items:
        yield []
        return
    first, rest = items[0], items[1:]
    for p in set_partitions(rest):
        yield [[first]] + p
        for i in range(len(p)):
            yield p[:i] + [[first] + p[i]] + p[i + 1:]


def key(partition):
    return frozenset(frozenset(int(v) for v in b) for b in partition)


@functools.lru_cache(None)
def all_keys(n):
    return [key(p) for p in set_partitions(list(range(n)))]


class Double:
    """ Learner with a fixed loss per partition. """
    def __init__(self, losses):
        self.losses, self.asked, self.given = losses, [], {}

    def compute_factorization_loss(self, X, y, partition, x0=None):
        return self.fit_and_loss(X, y, partition, x0)[1]

    def fit(self, X, y, partition, x0=None):
        return self.fit_and_loss(X, y, partition, x0)[0]

    def fit_and_loss(self, X, y, partition, x0=None):
        blocks = sorted(int(v) for b in partition for v in b)
        if blocks != list(range(X.shape[1])):
            raise core.Violation('{} is no partition of {} attributes'.format(partition, X.shape[1]))
        self.asked.append((X, y, [list(b) for b in partition], None if x0 is None else np.array(x0)))
        k = key(partition)
        rng = gen.rs(hash(tuple(sorted(tuple(sorted(b)) for b in k))) % 2 ** 31)
        clf = FactorizedLinearClassifier([list(b) for b in partition], rng.randn(len(k) + X.shape[1]))
        self.given[k] = functions(clf.partition, clf.weights)
        return clf, self.losses[k]


def functions(partition, weights):
    """ The linear function of each block: intercept, and weight of each attribute. """
    out, pos = {}, 0
    for b in partition:
        out[frozenset(b)] = {'intercept': float(weights[pos]), **{int(v): float(weights[pos + 1 + i]) for i, v in enumerate(b)}}
        pos += 1 + len(b)
    return out


@st.composite
def cases(draw, n_max):
    n = draw(st.one_of(st.integers(1, n_max), st.integers(n_max - 1, n_max)))
    return {'n': n, 'max_dim': draw(st.one_of(st.none(), st.integers(2, max(2, n - 1)), st.integers(1, n + 1))), 'max_partitions': draw(st.one_of(st.none(), st.integers(1, n + 1))), 'seed': draw(gen.seeds()), 'warm': draw(st.booleans()), 'order': draw(st.sampled_from([0., 0.3, 0.3, 2.])), 'unit': draw(st.sampled_from([1., 1., 1e-7])), 'again': draw(st.booleans())}


def losses(case):
    """ Distinct losses; mostly smaller for few blocks. """
    r = gen.rs(case['seed'])
    parts = all_keys(case['n'])
    values = r.permutation(len(parts)) / len(parts)
    return {p: float(case['unit'] * (v + float(case['order']) * len(p))) for p, v in zip(parts, values)}, r


def trivial_bounds(case):
    n = case['n']
    dim = n if case['max_dim'] is None else min(n, case['max_dim'])
    count = n if case['max_partitions'] is None else min(n, case['max_partitions'])
    return dim, count


@check.sub(cases(6), quick=500, thorough=30000, shards=2)
def brute_force(case, ctx):
    table, r = losses(case)
    dim, count = trivial_bounds(case)
    n = case['n']
    learner, X, y = Double(table), r.randn(5, n), np.array([0., 1., 0., 1., 1.])
    valid = [p for p in table if max(map(len, p)) <= dim and len(p) <= count]
    selector = BruteForceSelector(max_partitions=case['max_partitions'], max_dim=case['max_dim'])
    if not valid:
        ctx.raises(ValueError, lambda: selector(X, y, learner), 'no partition of {} attributes with at most {} parts of size at most {}'.format(n, count, dim))
        return
    if case['again']:  # used before, with other attributes
        other = {key(p): -len(p) + 0.01 * i for i, p in enumerate(set_partitions(list(range(max(1, n - 1)))))}
        selector(X[:, :max(1, n - 1)], y, Double(other))
    got = selector(X, y, learner)
    ctx.eq(sorted(v for b in got for v in b), list(range(n)), 'attributes of the selected partition')
    ctx.require(key(got) in valid, 'selected partition {} is not within the bounds {}, {}', got, count, dim)
    best = min(valid, key=lambda p: table[p])
    ctx.eq(table[key(got)], table[best], 'loss of the selected partition (best: {})'.format(sorted(map(sorted, best))))
    for A, b, _, _ in learner.asked:
        ctx.require(A is X or np.array_equal(A, X), 'data given to the learner')
        ctx.require(b is y or np.array_equal(b, y), 'labels given to the learner')
    ctx.nontrivial(1 < len(got) < n)


@check.sub(cases(7), quick=700, thorough=30000, shards=3)
def greedy(case, ctx):
    """ Repeatedly merges the two blocks which lower the loss the most, as long as it gets lower. """
    case['max_partitions'] = None
    table, r = losses(case)
    dim, _ = trivial_bounds(case)
    n = case['n']
    learner, X, y = Double(table), r.randn(5, n), np.array([0., 1., 0., 1., 1.])
    got = GreedySelector(max_dim=case['max_dim'], warm_start=case['warm'])(X, y, learner)
    current = frozenset(frozenset([i]) for i in range(n))
    path = {}
    while True:
        path[len(current)] = current
        blocks = list(current)
        options = [frozenset([b for b in blocks if b not in (p, q)] + [p | q]) for i, p in enumerate(blocks) for q in blocks[:i] if len(p | q) <= dim]
        options = [o for o in options if table[o] < table[current]]
        if not options:
            break
        current = min(options, key=lambda o: table[o])
    ctx.eq(sorted(map(sorted, key(got))), sorted(map(sorted, current)), 'selected partition')
    ctx.nontrivial(1 < len(got) < n)
    # warm start: the merged block begins with the sum of both linear functions
    if not case['warm'] or n == 1 or dim == 1:
        for _, _, p, x0 in learner.asked:
            ctx.require(x0 is None or (x0 == 0).all(), 'starting weights {} without warm start', x0)
    else:
        ctx.require(all((x0 is not None) == (len(p) < n) for _, _, p, x0 in learner.asked), 'starting weights with warm start: {}', learner.asked)
        for _, _, p, x0 in learner.asked:
            if x0 is None:
                continue
            before = learner.given[path[len(p) + 1]]
            for block, f in functions(p, x0).items():
                if block in before:
                    expected = before[block]
                else:
                    a, b = [before[q] for q in before if q < block]
                    expected = {**a, **b, 'intercept': a['intercept'] + b['intercept']}
                ctx.eq(set(f), set(expected), 'attributes of block {}'.format(sorted(block)))
                for v in expected:
                    ctx.close(f[v], expected[v], 'starting weight of {} in block {} of {}'.format(v, sorted(block), p), rtol=1e-9, atol=1e-12)


@check.sub(st.fixed_dictionaries({'bad': st.sampled_from([0, -1, 1.5]), 'cls': st.sampled_from(['brute', 'greedy']), 'what': st.sampled_from(['max_partitions', 'max_dim'])}), quick=40)
def arguments(case, ctx):
    cls = {'brute': BruteForceSelector, 'greedy': GreedySelector}[case['cls']]
    ctx.raises(ValueError, lambda: cls(**{case['what']: case['bad']}), '{} = {}'.format(case['what'], case['bad']))
    ctx.nontrivial()


@check.known_finding('greedy-max-partitions')
def greedy_max_partitions(ctx):
    """ Greedy selection stops merging when the loss gets no lower, however many parts there are. """
    table = {key(p): float(-len(p)) for p in set_partitions([0, 1, 2, 3])}
    got = GreedySelector(max_partitions=2)(np.zeros((2, 4)), np.array([0., 1.]), Double(table))
    if len(got) > 2:
        raise core.Violation('GreedySelector(max_partitions=2) selected {}'.format(got))
