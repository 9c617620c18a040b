from math import log

import numpy as np
from hypothesis import strategies as st

import core
import gen
import zoo
from aideme import PoolBasedExploration, max_iter_reached, stratified_sampler
from aideme.explore import LabeledSet, PartitionedDataset
from aideme.utils import classification_metrics, prediction_entropy, three_set_metric, training_classification_metrics
from common import rows_dataset

check = core.Check('C10', rule='random predictions, probabilities and three-set labels against scores counted by hand; explorations with the dual space model, whose '
                   'three-set metric is compared with its F-score; non-trivial: both labels appear in the truth and in the predictions / the score is not trivial')

NAMES = ['true_positive', 'false_positive', 'true_negative', 'false_negative', 'accuracy', 'precision', 'recall', 'fscore']


def ratio(a, b):
    return a / b if b else 0.


def scores(true, pred):
    tp = sum(t == 1 and p == 1 for t, p in zip(true, pred))
    fp = sum(t == 0 and p == 1 for t, p in zip(true, pred))
    tn = sum(t == 0 and p == 0 for t, p in zip(true, pred))
    fn = sum(t == 1 and p == 0 for t, p in zip(true, pred))
    precision, recall = ratio(tp, tp + fp), ratio(tp, tp + fn)
    return {'true_positive': tp, 'false_positive': fp, 'true_negative': tn, 'false_negative': fn, 'accuracy': ratio(tp + tn, len(true)),
            'precision': precision, 'recall': recall, 'fscore': ratio(2 * precision * recall, precision + recall)}


class Fixed:
    """ Predicts what it was given for the row whose number is in the first column. """
    def __init__(self, pred=None, proba=None, shape=lambda x: x):
        self.pred, self.proba, self.shape = pred, proba, shape

    def predict(self, X):
        return self.shape(np.array([self.pred[int(row[0])] for row in X]))

    def predict_proba(self, X):
        return np.array([self.proba[int(row[0])] for row in X], dtype=float)


class Threshold:
    """ Positive beyond a number: depends on the exact values of the rows. """
    def __init__(self, limit, strict):
        self.limit, self.strict = limit, strict

    def predict(self, X):
        v = np.asarray(X)[:, -1]
        return (v > self.limit if self.strict else v >= self.limit).astype(float)


@check.sub(st.fixed_dictionaries({'n': st.sampled_from([*range(2, 13), 25, 60, 150]), 'seed': gen.seeds(), 'pick': st.integers(0, 11), 'strict': st.booleans(), 'dtype': st.sampled_from(['float', 'float', 'int']), 'order': st.sampled_from(['C', 'F']), 'list': st.booleans()}), quick=300)
def exact_rows(case, ctx):
    """ The learner is asked about the test points as they were given, to the last digit, whatever happens to the caller's labels afterwards. """
    r = gen.rs(case['seed'])
    n = case['n']
    X = r.randn(n, 3)
    if case['dtype'] == 'int':
        X = r.randint(2 ** 40, 2 ** 40 + 5, size=(n, 3))
    limit = X[case['pick'] % n, -1]
    learner = Threshold(limit, case['strict'])
    X = np.asarray(X, order=case['order'])
    y = r.randint(0, 2, size=n)
    pred = learner.predict(X).astype(int).tolist()
    callback = classification_metrics(X.tolist() if case['list'] else X, y.tolist() if case['list'] else y, NAMES)
    data = PartitionedDataset(r.randn(4, 3))
    exp = scores(y.tolist(), pred)
    for _ in range(2):
        got = callback(data, learner)
        for s in NAMES:
            ctx.close(got[s], exp[s], s)
    data = PartitionedDataset(X)
    idx = [int(i) for i in r.permutation(n)]
    data.move_to_labeled(LabeledSet(y[idx[:n // 2]], index=idx[:n // 2]))
    data.move_to_labeled(LabeledSet(y[idx[n // 2:]], index=idx[n // 2:]))
    got = training_classification_metrics(NAMES)(data, learner)
    for s in NAMES:
        ctx.close(got[s], exp[s], 'training ' + s)
    ctx.nontrivial(len(set(pred)) == 2 and len(set(y.tolist())) == 2)


@st.composite
def predictions(draw):
    n = draw(st.integers(1, 20))
    return {'true': draw(gen.bits(n)), 'pred': draw(gen.bits(n)), 'scores': draw(st.lists(st.sampled_from(NAMES), max_size=8, unique=True)), 'prefix': draw(st.sampled_from(['', 'x_', 'test.'])),
            'dtype': draw(st.sampled_from(['int', 'float', 'bool'])), 'train': draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n, unique=True)), 'bad': draw(st.sampled_from(['auc', 'Precision', '', 'f1']))}


@check.sub(predictions(), quick=800, shards=2)
def classification(case, ctx):
    n = len(case['true'])
    X = rows_dataset(n, 2, 1)
    learner = Fixed(case['pred'], shape=lambda x: x.astype(case['dtype']))
    callback = classification_metrics(X, np.array(case['true']), case['scores'], prefix=case['prefix'])
    data = PartitionedDataset(rows_dataset(3, 2, 2))
    got = callback(data, learner)
    exp = scores(case['true'], case['pred'])
    ctx.eq(set(got), {case['prefix'] + s for s in case['scores']}, 'names of the metrics')
    for s in case['scores']:
        ctx.close(got[case['prefix'] + s], exp[s], s)
    ctx.raises(ValueError, lambda: classification_metrics(X, np.array(case['true']), case['scores'] + [case['bad']]), 'unknown score')
    ctx.raises(ValueError, lambda: training_classification_metrics([case['bad']] + case['scores']), 'unknown score')
    # asked again, of a learner which changed its mind in the meantime
    first, learner.pred = learner.pred, [1 - v for v in case['pred']]
    got = callback(data, learner)
    exp = scores(case['true'], learner.pred)
    for s in case['scores']:
        ctx.close(got[case['prefix'] + s], exp[s], s + ' of other predictions')
    learner.pred = first
    # the same over the training set
    data = PartitionedDataset(X)
    idx = case['train']
    data.move_to_labeled(LabeledSet([case['true'][i] for i in idx], index=idx))
    got = training_classification_metrics(case['scores'], prefix=case['prefix'])(data, learner)
    exp = scores([case['true'][i] for i in idx], [case['pred'][i] for i in idx])
    ctx.eq(set(got), {case['prefix'] + s for s in case['scores']}, 'names of the training metrics')
    for s in case['scores']:
        ctx.close(got[case['prefix'] + s], exp[s], 'training ' + s)
    ctx.label(*case['scores'])
    ctx.nontrivial(set(case['true']) == {0, 1} and set(case['pred']) == {0, 1} and case['scores'])


@check.sub(st.fixed_dictionaries({'p': st.lists(st.one_of(st.sampled_from([0., 0.5, 1.]), st.floats(0, 1), st.floats(0, 1e-12)), min_size=1, max_size=60), 'moved': st.integers(0, 14)}), quick=500)
def entropy(case, ctx):
    """ Average entropy of the predictions over the whole data, labeled points included. """
    p = case['p']
    data = PartitionedDataset(rows_dataset(len(p), 2, 1))
    if case['moved'] < len(p):
        data.move_to_labeled(LabeledSet([1], index=[case['moved']]))
        data.move_to_inferred([i for i in range(len(p)) if i != case['moved']][:2])
    got = prediction_entropy(data, Fixed(proba=p))
    def h(q):
        return -q * log(q) if q > 0 else 0.
    ctx.eq(set(got), {'prediction_entropy'}, 'names')
    ctx.close(got['prediction_entropy'], sum(h(q) + h(1 - q) for q in p) / len(p), 'prediction entropy', atol=1e-12)
    ctx.nontrivial(any(0 < q < 1 for q in p))


class Polytope:
    def __init__(self, labels):
        self.labels = labels

    def predict(self, X):
        return np.array([self.labels[int(row[0])] for row in X])


@check.sub(st.fixed_dictionaries({'labels': st.lists(st.sampled_from([0., 0.5, 1.]), min_size=1, max_size=15), 'moved': st.integers(0, 14), 'inferred': st.lists(st.integers(0, 14), max_size=4, unique=True)}), quick=500)
def three_sets(case, ctx):
    labels = case['labels']
    data = PartitionedDataset(rows_dataset(len(labels), 2, 1))
    if case['moved'] < len(labels):
        data.move_to_labeled(LabeledSet([1], index=[case['moved']]))
    data.move_to_inferred([i for i in case['inferred'] if i < len(labels) and i != case['moved']])
    learner = Fixed()
    ctx.eq(three_set_metric(data, learner), {}, 'metric of a learner without polytope model')
    learner.polytope_model = Polytope(labels)
    pos, unknown = labels.count(1.), labels.count(0.5)
    got = three_set_metric(data, learner)
    ctx.eq(set(got), {'tsm'}, 'names')
    ctx.close(got['tsm'], ratio(pos, pos + unknown), 'three set metric')
    ctx.nontrivial(pos and unknown)


@check.sub(st.fixed_dictionaries({'n': st.integers(15, 60), 'd': st.integers(1, 3), 'seed': gen.seeds(), 'flip': st.booleans(), 'iters': st.integers(3, 12), 'run_seed': st.integers(0, 99), 'facto': st.booleans()}),
           quick=60, thorough=2500, shards=4, rule='dual space model over convex user interests: the three set metric is a lower bound of the F-score')
def tsm_is_a_lower_bound(case, ctx):
    import aideme
    n, d = case['n'], case['d']
    r = gen.rs(case['seed'])
    X = r.uniform(-1, 1, size=(n, d)).round(3)
    partial = (np.abs(X) < 0.75).astype(int)  # a box: convex, and so is its projection over each attribute
    if case['flip']:
        partial[:, 0] = 1 - partial[:, 0]
    y = partial.min(axis=1) if case['facto'] or not case['flip'] else 1 - (np.abs(X) < 0.75).min(axis=1)
    if len(set(y.tolist())) < 2 or (case['facto'] and (partial.max(axis=1) == 1).all()):
        return
    ls = LabeledSet(y, partial if case['facto'] else None)
    if case['facto']:
        mode = ['negative' if case['flip'] and j == 0 else 'positive' for j in range(d)]
        learner = aideme.FactorizedDualSpaceModel(aideme.SimpleMargin(C=1000., gamma=1.), partition=[[j] for j in range(d)], mode=mode)
    else:
        learner = aideme.DualSpaceModel(aideme.SimpleMargin(C=1000., gamma=1.), mode='negative' if case['flip'] else 'positive')
    explorer = PoolBasedExploration(stratified_sampler(ls, neg_in_all_subspaces=case['facto']), callback=[three_set_metric, classification_metrics(X, y, ['fscore'])], convergence_criteria=max_iter_reached(case['iters']))
    last = 0
    for m in next(iter(explorer.run(X, ls, learner, seeds=case['run_seed']))):
        ctx.require(m['tsm'] <= m['fscore'] + 1e-12, 'three set metric {} > F-score {}', m['tsm'], m['fscore'])
        ctx.require(m['tsm'] >= last - 1e-12, 'the three set metric fell from {} to {}', last, m['tsm'])
        last = m['tsm']
        ctx.nontrivial(0 < m['tsm'] < 1)
    ctx.label('factorized' if case['facto'] else 'plain', 'negative' if case['flip'] else 'positive')
