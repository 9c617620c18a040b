import numpy as np
from hypothesis import strategies as st
from scipy.special import expit
from sklearn.base import BaseEstimator
from sklearn.linear_model import LogisticRegression
from sklearn.svm import SVC
from sklearn.tree import DecisionTreeClassifier

import core
import gen
from aideme import QueryByDisagreement, RandomSampler, RatioMargin, SimpleMargin, UncertaintySampler
from aideme.explore import LabeledSet, PartitionedDataset
from common import RowClassifier

check = core.Check('C23', rule='random labeled data given to the classifier based learners, compared with Scikit-learn models trained by the check itself, or with recording classifiers; '
                   'non-trivial: both labels are predicted',
                   assumptions=['Scikit-learn trains support vector machines and trees correctly and deterministically'])


def dataset(r, n, d, q, kind='blobs'):
    X = r.randn(n + q, d)
    w = r.randn(d)
    y = (X.dot(w) + 0.3 * r.randn(n + q) > 0).astype(float) if kind == 'blobs' else ((X ** 2).sum(axis=1) < np.median((X ** 2).sum(axis=1))).astype(float)
    y[:2] = [0, 1]
    return X[:n], y[:n], X[n:]


@st.composite
def cases(draw):
    return {'n': draw(st.integers(2, 25)), 'd': draw(st.integers(1, 4)), 'q': draw(st.integers(1, 20)), 'seed': draw(gen.seeds()), 'kind': draw(st.sampled_from(['blobs', 'ball'])), 'C': draw(st.sampled_from([0.5, 1., 100., 1e4])),
            'kernel': draw(st.sampled_from(['rbf', 'rbf', 'linear', 'poly'])), 'gamma': draw(st.sampled_from(['auto', 'scale', 0.5, 2.])), 'int': draw(st.booleans()), 'again': draw(st.booleans())}


@check.sub(cases(), quick=250, thorough=15000, shards=2)
def simple_margin(case, ctx):
    """ The distances to the boundary of a support vector machine, as ranks, labels and probabilities. """
    if case['kernel'] != 'rbf':  # LIBSVM is slow otherwise
        case['C'] = min(case['C'], 1.)
        case['gamma'] = 'auto'
    r = gen.rs(case['seed'])
    learner = SimpleMargin(C=case['C'], kernel=case['kernel'], gamma=case['gamma'])
    for _ in range(2 if case['again'] else 1):
        X, y, Q = dataset(r, case['n'], case['d'], case['q'], case['kind'])
        y = y.astype(int) if case['int'] else y
        learner.fit(X, y)
        ref = SVC(C=case['C'], kernel=case['kernel'], gamma=case['gamma']).fit(X, y)
        P = np.vstack([X, Q])
        dist = ref.decision_function(P)
        tol = dict(rtol=1e-6, atol=1e-6 * max(1, np.abs(dist).max()))
        ctx.close(learner.rank(P), np.abs(dist), 'rank', **tol)
        p = np.asarray(learner.predict_proba(P))
        ctx.close(p, expit(dist), 'probability of being positive', rtol=1e-5, atol=1e-5)
        clear = np.abs(dist) > 1e-5 * max(1, np.abs(dist).max())
        ctx.arr_eq(np.asarray(learner.predict(P))[clear], (dist[clear] > 0).astype(float), 'predicted labels')
        ctx.arr_eq(np.asarray(learner.predict(P))[clear], (p[clear] > 0.5).astype(float), 'predicted labels versus probabilities')
        ctx.nontrivial(dist.min() < 0 < dist.max())
    ctx.label(case['kernel'])


@check.sub(cases(), quick=60, thorough=4000, shards=4)
def ratio_margin(case, ctx):
    """ The margins with the point labeled positive and negative, as computed by two machines per point. """
    if case['C'] < 1 or case['gamma'] == 'scale':
        return
    if case['kernel'] != 'rbf':  # LIBSVM is slow otherwise
        case['C'], case['kernel'], case['gamma'] = 1., 'linear', 'auto'
    r = gen.rs(case['seed'])
    X, y, Q = dataset(r, min(case['n'], 12), case['d'], min(case['q'], 8), case['kind'])
    Q = np.vstack([Q, X[r.randint(len(X), size=2)]])  # the user may not have seen all copies of a row
    learner = RatioMargin(C=case['C'], kernel=case['kernel'], gamma=case['gamma'])
    if case['again']:  # trained and asked for ranks before, on as many points
        perm = r.permutation(len(X))
        learner.fit(X[perm], 1 - y)
        learner.rank(Q[:2])
    learner.fit(X.copy(), y.copy())
    before = learner.predict_proba(Q).copy()
    got = np.asarray(learner.rank(Q))
    ctx.eq(got.shape, (len(Q),), 'shape of the ranks')

    def margin(x, label):
        m = SVC(C=case['C'], kernel=case['kernel'], gamma=case['gamma']).fit(np.vstack([X, x]), np.r_[y, label])
        return float(m.dual_coef_.dot(m.decision_function(m.support_vectors_)).item())  # sum of alpha_i y_i f(x_i)

    expected, sound = [], []
    for x in Q:
        a, b = margin(x, 0), margin(x, 1)
        expected.append(-min(a / b, b / a) if a > 0 and b > 0 else np.nan)
        sound.append(a > 1e-3 and b > 1e-3)
    expected, sound = np.array(expected), np.array(sound)
    ctx.close(got[sound], expected[sound], 'rank: minus the smaller ratio of the two margins', rtol=1e-4, atol=1e-6)
    ctx.require((got[sound] >= -1 - 1e-9).all() and (got[sound] <= 0).all(), 'ranks {} are not between -1 and 0', got)
    ctx.close(learner.rank(Q), got, 'ranks computed a second time')
    perm = r.permutation(len(Q))
    ctx.close(learner.rank(Q[perm]), got[perm], 'ranks of the points in another order')
    ctx.arr_eq(learner.predict_proba(Q), before, 'probabilities after ranking')
    ref = SVC(C=case['C'], kernel=case['kernel'], gamma=case['gamma']).fit(X, y)
    ctx.close(before, expit(ref.decision_function(Q)), 'probability of being positive', rtol=1e-5, atol=1e-5)
    ctx.nontrivial(sound.any() and len(set(np.round(got[sound], 6))) > 1)


class Wrapped(BaseEstimator):
    """ A Scikit-learn like classifier recording its trainings; its clones share the record. """
    LOG = []

    def __init__(self, depth=2, columns=True):
        self.depth, self.columns = depth, columns

    def fit(self, X, y, sample_weight=None):
        self.tree_ = DecisionTreeClassifier(max_depth=self.depth, random_state=0).fit(X, y, sample_weight)
        self.record_ = (np.array(X), np.array(y), None if sample_weight is None else np.array(sample_weight))
        Wrapped.LOG.append(self.record_)
        return self

    def predict(self, X):
        return self.tree_.predict(X)

    def predict_proba(self, X):
        p = self.tree_.predict_proba(X)
        p = p if p.shape[1] == 2 else np.c_[1. - self.tree_.classes_[0] * np.ones(len(X)), self.tree_.classes_[0] * np.ones(len(X))]
        return p if self.columns else p[:, 1]


@check.sub(st.fixed_dictionaries({'n': st.integers(2, 10), 'pool': st.one_of(st.integers(0, 12), st.integers(0, 12), st.integers(0, 12), st.sampled_from([25, 60, 210, 330])), 'd': st.integers(1, 3), 'seed': gen.seeds(), 'size': st.sampled_from([1, 3, 10, 200, 1000]), 'weight': st.sampled_from([1e-5, 1e-2, 1.]), 'depth': st.integers(1, 3), 'columns': st.booleans(),
                                  'rng': gen.seeds(), 'again': st.booleans(), 'infer': st.integers(0, 3)}), quick=400, thorough=20000, shards=2)
def disagreement(case, ctx):
    """ Training on the labels, and on the labels plus weakly weighted positive (negative) background points. """
    r = gen.rs(case['seed'])
    n, pool = case['n'], case['pool']
    X = r.randn(n + pool + 1, case['d'])
    X[:, 0] = np.arange(len(X)) + 0.25 * r.rand(len(X))
    X = X[r.permutation(len(X))]
    y = r.randint(0, 2, size=len(X)).astype(float)
    y[:2] = [0, 1]
    ids = {tuple(x.tolist()): i for i, x in enumerate(X)}
    data = PartitionedDataset(X.copy())
    learner = QueryByDisagreement(Wrapped(case['depth'], case['columns']), background_sample_size=case['size'], background_sample_weight=case['weight'])
    np.random.seed(case['rng'] % 2 ** 32)
    done = 0
    for step in range(2 if case['again'] else 1):
        todo = list(range(done, n if step == 0 else n + min(1, pool)))
        if not todo:
            break
        done = todo[-1] + 1
        data.move_to_labeled(LabeledSet(y[todo], index=todo))
        if step == 0 and case['infer'] and pool > case['infer']:
            data.move_to_inferred(list(range(n + 1, n + 1 + case['infer'])))
        del Wrapped.LOG[:]
        learner.fit_data(data)
        plain = [rec for rec in Wrapped.LOG if len(rec[0]) == done and rec[2] is None]
        ctx.require(len(plain) == 1, 'there should be a single training on the labeled points alone, of {}', len(Wrapped.LOG))
        ctx.eq({ids[tuple(x.tolist())]: v for x, v in zip(plain[0][0], plain[0][1])}, {i: y[i] for i in range(done)}, 'training set of the learner')
        biased = [rec for rec in Wrapped.LOG if rec is not plain[0]]
        ctx.eq(len(biased), 2, 'number of biased trainings')
        size = min(case['size'], len(X) - done)
        background = []
        for (A, b, wgt), bias in zip(sorted(biased, key=lambda rec: -rec[1].sum()), (1., 0.)):
            rows = [ids[tuple(x.tolist())] for x in A]
            ctx.eq(len(rows), done + size, 'size of a biased training set')
            ctx.eq(len(set(rows)), len(rows), 'number of different points in a biased training set')
            ctx.require(set(range(done)) <= set(rows), 'labeled points are missing from a biased training set')
            for i, v, g in zip(rows, b, wgt):
                ctx.eq((v, g), (y[i], 1.) if i < done else (bias, case['weight']), 'label and weight of point {} ({})'.format(i, 'labeled' if i < done else 'background'))
            background.append(set(rows) - set(range(done)))
        ctx.eq(background[0], background[1], 'background points of both biased trainings')
        trees = [DecisionTreeClassifier(max_depth=case['depth'], random_state=0).fit(A, b, g) for A, b, g in biased]
        Q = np.vstack([X, X + 0.3])
        disagree = trees[0].predict(Q) != trees[1].predict(Q)
        rank = np.asarray(learner.rank(Q))
        ctx.eq(rank.shape, (len(Q),), 'shape of the ranks')
        if disagree.any():
            ctx.require(rank[disagree].max() < (rank[~disagree].min() if not disagree.all() else np.inf), 'points on which the biased learners disagree are not ranked first')
        ctx.require(len(set(rank[disagree])) <= 1 and len(set(rank[~disagree])) <= 1, 'ranks {} differ within the (dis)agreement region', rank)
        ref = DecisionTreeClassifier(max_depth=case['depth'], random_state=0).fit(*plain[0][:2])
        ctx.arr_eq(learner.predict(Q), ref.predict(Q), 'predicted labels')
        ctx.close(learner.predict_proba(Q), ref.predict_proba(Q)[:, 1], 'probabilities')
        ctx.nontrivial(disagree.any() and not disagree.all())


@check.sub(st.fixed_dictionaries({'c': cases(), 'learner': st.sampled_from(['random', 'uncertainty']), 'clf': st.sampled_from(['logistic', 'tree', 'row', 'array'])}), quick=250, thorough=12000)
def wrapped_classifiers(case, ctx):
    """ Labels and probabilities are those of the wrapped classifier, whether it returns one column per class or only the positive one. """
    c = case['c']
    r = gen.rs(c['seed'])
    X, y, Q = dataset(r, c['n'], c['d'], c['q'], c['kind'])
    make = {'logistic': lambda: LogisticRegression(), 'tree': lambda: DecisionTreeClassifier(random_state=1), 'row': lambda: RowClassifier(c['seed'] % 5), 'array': lambda: Wrapped(2, False)}[case['clf']]
    learner = RandomSampler(make()) if case['learner'] == 'random' else UncertaintySampler(make())
    ref = make()
    if c['again']:
        learner.fit(X[::-1], 1 - y)
        learner.predict_proba(Q)
    learner.fit(X, y)
    ref.fit(X, y)
    p = np.asarray(learner.predict_proba(Q))
    q = np.asarray(ref.predict_proba(Q))
    ctx.close(p, q[:, 1] if q.ndim == 2 else q, 'probability of being positive')
    ctx.arr_eq(learner.predict(Q), ref.predict(Q), 'predicted labels')
    if case['learner'] == 'uncertainty':
        ctx.close(learner.rank(Q), np.abs(p - 0.5), 'rank')
    ctx.nontrivial(len(set(np.asarray(learner.predict(Q)).tolist())) == 2)


@check.sub(st.fixed_dictionaries({'size': st.sampled_from([1, 0, -2]), 'weight': st.sampled_from([1e-5, 0., -1.]), 'batch': st.sampled_from([1, 0, -1])}), quick=40)
def arguments(case, ctx):
    if case['size'] < 1 or case['weight'] <= 0:
        ctx.raises(ValueError, lambda: QueryByDisagreement(Wrapped(), case['size'], case['weight']), 'background sample of size {}, weight {}'.format(case['size'], case['weight']))
    else:
        QueryByDisagreement(Wrapped(), case['size'], case['weight'])
    if case['batch'] < 1:
        ctx.raises(ValueError, lambda: RandomSampler(RowClassifier(0), case['batch']), 'batch size {}'.format(case['batch']))
    ctx.nontrivial(case['size'] < 1 or case['weight'] <= 0 or case['batch'] < 1)
