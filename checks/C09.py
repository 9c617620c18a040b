import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme import stratified_sampler, fixed_sampler
from aideme.initial_sampling import random_sampler
from aideme.explore import ExplorationManager, LabeledSet, PartitionedDataset
from common import RecordingLearner, rows_dataset
from partition_model import Model, history

check = core.Check('C09', rule='random label sets and data partitions, sampled many times; non-trivial: there are more candidates than requested points')


@check.sub(st.fixed_dictionaries({'n': st.sampled_from([*range(1, 13), *range(1, 13), 25, 60]), 'k': st.integers(0, 5), 'seed': gen.seeds(), 'pos': st.sampled_from([1, 1, 1, 2, 2, 3, 4, 7]), 'neg': st.sampled_from([1, 1, 2, 2, 3, 4, 8, 11]), 'all': st.booleans(), 'own': st.booleans(), 'rng': gen.seeds()}), quick=500, shards=2)
def stratified(case, ctx):
    n, k = case['n'], case['k']
    r = gen.rs(case['seed'])
    partial = r.randint(0, 2, size=(n, max(k, 1))) & (r.rand(n, 1) < 0.7) | (r.rand(n, 1) < 0.3)
    y = partial.min(axis=1)
    index = r.permutation(5 * n)[:n] if case['own'] else np.arange(n)
    ls = LabeledSet(y, partial if k else None, index if case['own'] else None)
    pos = set(index[y == 1].tolist())
    neg = set(index[partial.max(axis=1) == 0].tolist()) if case['all'] else set(index[y == 0].tolist())
    sampler = stratified_sampler(ls, pos=case['pos'], neg=case['neg'], neg_in_all_subspaces=case['all'])
    np.random.seed(case['rng'] % 2 ** 32)
    data = PartitionedDataset(rows_dataset(n, 2, 1), index.copy())
    if len(pos) < case['pos'] or len(neg) < case['neg']:
        ctx.raises(ValueError, lambda: sampler(data), 'more points than there are')
        return
    seen = set()
    for _ in range(250 if n <= 12 else 25 * n):
        got = [int(i) for i in sampler(data)]
        seen |= set(got)
        ctx.eq(len(set(got)), case['pos'] + case['neg'], 'number of distinct points')
        ctx.eq(len(got), case['pos'] + case['neg'], 'number of points')
        ctx.eq(len(pos & set(got)), case['pos'], 'number of positive points')
        ctx.eq(len(neg & set(got)), case['neg'], 'number of negative points' + (' (negative in all subspaces)' if case['all'] else ''))
    ctx.eq(seen, pos | neg, 'points which are ever sampled')  # each one is missed with probability < (11 / 12) ** 250, or (59 / 60) ** 1500
    first = ls.get_index(sampler(data))
    ctx.require(first.has_positive_and_negative_labels(), 'both labels expected')
    ctx.nontrivial(len(pos) > case['pos'] or len(neg) > case['neg'])


@check.sub(st.fixed_dictionaries({'h': history(9, 8), 'size': st.integers(1, 10), 'rng': gen.seeds()}), quick=400)
def random_points(case, ctx):
    m = Model(case['h'])
    for o in case['h']['ops']:
        m.apply(o, ctx)
    free = set(int(i) for i in m.where(['unknown', 'inferred']))
    sampler = random_sampler(case['size'])
    np.random.seed(case['rng'] % 2 ** 32)
    seen = set()
    for _ in range(max(200, 40 * len(free))):  # each point is missed with probability < exp(-22)
        got = [int(i) for i in sampler(m.data)]
        ctx.eq(len(set(got)), min(case['size'], len(free)), 'number of distinct points')
        ctx.eq(len(got), min(case['size'], len(free)), 'number of points')
        ctx.require(set(got) <= free, 'sampled {}, which are not all among the unlabeled points {}', got, free)
        seen |= set(got)
    ctx.eq(seen, free, 'points which are ever sampled')
    ctx.nontrivial(len(free) > case['size'] and len(free) < len(m.index))


@check.sub(st.fixed_dictionaries({'n': st.integers(1, 12), 'picks': st.lists(st.integers(0, 100), min_size=1, max_size=5), 'form': st.sampled_from(['list', 'tuple', 'array']), 'own': st.booleans(), 'seed': gen.seeds()}), quick=300)
def fixed(case, ctx):
    """ The given points, in the given order. """
    n = case['n']
    index = gen.rs(case['seed']).permutation(4 * n)[:n] if case['own'] else np.arange(n)
    want = [int(i) for i in dict.fromkeys(int(index[p % n]) for p in case['picks'])]
    given = {'list': list, 'tuple': tuple, 'array': np.array}[case['form']](want)
    sampler = fixed_sampler(given)
    X = rows_dataset(n, 2, 3)
    manager = ExplorationManager(PartitionedDataset(X, index.copy()), RecordingLearner(), initial_sampler=sampler)
    for _ in range(2):
        pts = manager.get_next_to_label()
        ctx.eq([int(i) for i in pts.index], want, 'initial points')
        ctx.arr_eq(pts.data, np.array([X[index.tolist().index(i)] for i in want]), 'rows of the initial points')
    ctx.eq([int(i) for i in given], want, 'indexes given by the caller')
    ctx.nontrivial(len(want) > 1)


@check.sub(st.fixed_dictionaries({'pos': st.integers(-2, 2), 'neg': st.integers(-2, 2), 'bad': st.sampled_from([None, 0.5, -1, 0])}), quick=100)
def arguments(case, ctx):
    ls = LabeledSet([0, 1, 0, 1])
    if case['pos'] > 0 and case['neg'] > 0:
        stratified_sampler(ls, case['pos'], case['neg'])
    else:
        ctx.raises(ValueError, lambda: stratified_sampler(ls, case['pos'], case['neg']), 'sizes {}'.format(case))
    ctx.raises(ValueError, lambda: random_sampler(case['bad']), 'sample size {}'.format(case['bad']))
    ctx.nontrivial()
