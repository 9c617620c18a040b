import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme import ActiveLearner, RandomSampler, UncertaintySampler
from aideme.explore import LabeledSet, PartitionedDataset
from aideme.utils import metric_logger
from common import RowClassifier, rows_dataset
from partition_model import Model, history

check = core.Check('C22', rule='random dataset histories, ranking functions with ties, and subsample sizes; every selection is repeated with several random states; non-trivial: some unlabeled points are '
                   'minimizers and some are not / a proper subsample was drawn')


@st.composite
def cases(draw):
    return {'h': draw(history(9, 10)), 'ranks': draw(st.lists(st.sampled_from([-1.5, 0., 0.25, 0.25, 0.5, 1., 7.]), min_size=9, max_size=9)), 'sub': draw(st.one_of(st.none(), st.none(), st.integers(1, 12))), 'rng': draw(gen.seeds()),
            'inf': draw(st.booleans()), 'gap': draw(st.sampled_from([None, None, None, 1e-9, 1e-14, 1e5, 1e-300]))}


@check.sub(cases(), quick=400, thorough=30000, shards=3)
def minimizer(case, ctx):
    """ The point to label is one of the best ranked unlabeled points (of the subsample), and any of them may be chosen. """
    model = Model(case['h'])
    for o in case['h']['ops']:
        model.apply(o, ctx)
    data = model.data
    unlabeled = [int(i) for i in data.unlabeled.index]
    if not unlabeled:
        return
    row = {i: x.copy() for i, x in zip(unlabeled, data.unlabeled.data)}
    code = {tuple(x.tolist()): j for j, x in enumerate(data.data)}
    order = sorted(unlabeled)
    ranks = {i: case['ranks'][j % 9] for j, i in enumerate(order)}
    if case['gap'] is not None:  # almost equal ranks
        ranks = {i: 1. + case['gap'] * (1 + v) if case['gap'] != 1e-300 else v * 1e-300 for i, v in ranks.items()}
    if case['inf']:
        ranks[order[0]] = float('inf')
    by_row = {tuple(row[i].tolist()): ranks[i] for i in unlabeled}
    asked = []

    class Learner(ActiveLearner):
        def rank(self, X):
            asked.append([tuple(x.tolist()) for x in X])
            return np.array([by_row[t] for t in asked[-1]])

    learner = Learner()
    before = (data.index.tolist(), data.data.tolist(), data.labeled_size)
    sub = case['sub']
    size = len(unlabeled) if sub is None else min(sub, len(unlabeled))
    best = min(ranks.values())
    minimizers = {i for i in unlabeled if ranks[i] == best}
    chosen, sampled = set(), set()
    repeats = 40
    for k in range(repeats):
        np.random.seed((case['rng'] + k) % 2 ** 32)
        del asked[:]
        metric_logger.flush()
        pts = learner.next_points_to_label(data, sub)
        ids = [int(i) for i in np.atleast_1d(pts.index)]
        ctx.eq(len(ids), 1, 'number of points to label')
        i = ids[0]
        ctx.require(i in ranks, 'point {} is not unlabeled', i)
        ctx.arr_eq(np.asarray(pts.data).reshape(-1), row[i], 'row of the point to label')
        seen = [t for call in asked for t in call]
        ctx.eq(len(seen), size, 'number of ranked points')
        ctx.eq(len(set(seen)), size, 'number of different ranked points')
        ctx.eq(ranks[i], min(by_row[t] for t in seen), 'rank of the selected point, versus the minimum of the sample')
        ctx.require(tuple(row[i].tolist()) in seen, 'the selected point was not ranked')
        if 'min_rank' in metric_logger.get_metrics():
            ctx.eq(metric_logger.get_metrics()['min_rank'], ranks[i], 'logged min_rank')
        chosen.add(i)
        sampled.update(seen)
    ctx.eq((data.index.tolist(), data.data.tolist(), data.labeled_size), before, 'the dataset after the selection')
    if size == len(unlabeled):
        ctx.require(chosen <= minimizers, 'selected {}, best ranked are {}', chosen, minimizers)
        # with 40 uniform choices, one of 2 is missed with probability 2e-12
        if len(minimizers) == 2:
            ctx.eq(sorted(chosen), sorted(minimizers), 'selected points over {} selections'.format(repeats))
        elif len(minimizers) > 2:
            ctx.require(len(chosen) > 1, 'always the same one of {} equally ranked points is selected', len(minimizers))
    elif 2 * size >= len(unlabeled):
        ctx.eq(len(sampled), len(unlabeled), 'points of all the subsamples')
    ctx.nontrivial(len(minimizers) < len(unlabeled) or size < len(unlabeled))
    ctx.label('subsample' if size < len(unlabeled) else 'all unlabeled', '{} minimizers'.format(min(3, len(minimizers))))


@check.sub(st.fixed_dictionaries({'h': history(9, 10), 'batch': st.integers(1, 6), 'sub': st.one_of(st.none(), st.integers(1, 9)), 'rng': gen.seeds()}), quick=300, thorough=20000, shards=2)
def random_batch(case, ctx):
    """ RandomSampler: a batch of distinct unlabeled points, any of which may come up. """
    model = Model(case['h'])
    for o in case['h']['ops']:
        model.apply(o, ctx)
    data = model.data
    unlabeled = {int(i): x.copy() for i, x in zip(data.unlabeled.index, data.unlabeled.data)}
    if not unlabeled:
        return
    learner = RandomSampler(RowClassifier(1), case['batch'])
    size = min(case['batch'], len(unlabeled), case['sub'] or len(unlabeled))
    seen, batches = set(), set()
    np.random.seed(case['rng'] % 2 ** 32)
    for _ in range(250):
        pts = learner.next_points_to_label(data, case['sub'])
        ids = [int(i) for i in pts.index]
        ctx.eq(len(ids), size, 'batch size')
        ctx.eq(len(set(ids)), size, 'number of distinct points in the batch')
        for i, x in zip(ids, pts.data):
            ctx.require(i in unlabeled, 'point {} is not unlabeled', i)
            ctx.arr_eq(x, unlabeled[i], 'row of a point to label')
        seen.update(ids)
        batches.add(tuple(sorted(ids)))
    ctx.eq(sorted(seen), sorted(unlabeled), 'points which are ever selected')  # each one is missed with probability at most (8 / 9) ** 250 = 2e-13
    ctx.nontrivial(size < len(unlabeled))


@check.sub(st.fixed_dictionaries({'n': st.integers(4, 12), 'seed': gen.seeds(), 'labeled': st.integers(0, 3), 'rng': gen.seeds(), 'proba': st.lists(st.sampled_from([0., 0.1, 0.4, 0.45, 0.5, 0.55, 0.6, 0.9, 1.]), min_size=12, max_size=12)}), quick=300, thorough=15000)
def uncertainty(case, ctx):
    """ Uncertainty sampling selects the unlabeled points with probability closest to 0.5. """
    n = case['n']
    X = rows_dataset(n, 2, case['seed'] % 2 ** 32)
    data = PartitionedDataset(X.copy())
    for i in range(case['labeled']):
        data.move_to_inferred([i])

    class Clf:
        def predict_proba(self, X):
            p = np.array([case['proba'][int(x[0])] for x in X])
            return np.c_[1 - p, p]
    learner = UncertaintySampler(Clf())
    np.random.seed(case['rng'] % 2 ** 32)
    got = learner.next_points_to_label(data)
    i = int(np.atleast_1d(got.index)[0])
    dist = [abs(case['proba'][j] - 0.5) for j in range(n)]
    ctx.require(dist[i] <= min(dist) + 1e-9, 'selected a point with probability {}, best is at distance {}', case['proba'][i], min(dist))
    ctx.nontrivial(len(set(dist)) > 1)


@check.sub(st.fixed_dictionaries({'n': st.integers(10, 40), 'best': st.integers(1, 40), 'seed': gen.seeds(), 'labeled': st.integers(0, 4)}), quick=60, thorough=2000, shards=2)
def many_ties(case, ctx):
    """ Any of many equally ranked points may be chosen (one of 40 is missed in 1000 draws with probability below 1e-9). """
    r = gen.rs(case['seed'])
    n = case['n']
    X = np.arange(n, dtype=float).reshape(-1, 1)
    best = set(r.permutation(n)[:case['best']].tolist())
    data = PartitionedDataset(X.copy())
    taken = r.permutation(n)[:case['labeled']]
    if len(taken):
        data.move_to_labeled(LabeledSet(np.ones(len(taken)), index=taken))

    class Learner(ActiveLearner):
        def rank(self, X):
            return np.array([0.25 if int(x[0]) in best else 0.5 for x in X])

    left = set(range(n)) - set(taken.tolist())
    expected = (best & left) or left
    np.random.seed(case['seed'] % 2 ** 32)
    learner = Learner()
    chosen = {int(np.ravel(learner.next_points_to_label(data).index)[0]) for _ in range(1000)}
    ctx.eq(sorted(chosen), sorted(expected), 'points chosen in 1000 draws')
    ctx.nontrivial(1 < len(expected) < len(left))
