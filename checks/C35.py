import itertools
from math import ceil, comb, log

import numpy as np
from hypothesis import strategies as st

import core
import gen
from aideme import EntropyReductionLearner, KernelVersionSpace
from aideme.active_learning.aluma import aluma_preprocessing
from aideme.active_learning.kernel import Kernel
from aideme.explore import LabeledSet, PartitionedDataset
from aideme.utils import metric_logger

check = core.Check('C35', rule='random labeled pools and configurations of the entropy reduction learner, whose ranks are recomputed from the votes of its hypotheses (for every subset of the pool which its sample could be); random '
                   'data, kernels and bounds for the ALuMa preprocessing, every column of which must be one of the enumerated sign combinations; non-trivial: the points cutting the version space best leave '
                   'some entropy; or at least two data points',
                   assumptions=['margin < 2 (1 + sqrt(H)), delta > 0 (otherwise the formula of the number of columns is undefined)'])


def h(p):
    return 0. if p <= 0 or p >= 1 else -p * log(p) - (1 - p) * log(1 - p)


def entropies(H, S):
    """ For each column of H (votes for a point): expected mean entropy of the predictions of the points of S after learning the label of the point. """
    res = []
    for j in range(H.shape[1]):
        total = 0.
        for label in (0, 1):
            voters = S[H[:, j] == label]
            total += len(voters) / len(H) * sum(h(float(q)) for q in voters.mean(axis=0)) / S.shape[1]
        res.append(total)
    return np.array(res)


@check.sub(st.fixed_dictionaries({'n': st.integers(4, 9), 'd': st.integers(1, 3), 'm': st.sampled_from([20, 12, 30, 5, 1]), 'labeled': st.integers(2, 4), 'seed': gen.seeds(), 'rng': gen.seeds(), 'n_samples': st.sampled_from([8, 6, 4, 10, 9, 2, 1, 40]), 'size': st.one_of(st.none(), st.integers(1, 12)),
                                  'dup': st.booleans(), 'kernel': st.sampled_from(['rbf', 'linear']), 'again': st.booleans(), 'other': st.sampled_from([False, False, True]), 'direct': st.integers(0, 4), 'pool': st.sampled_from([False, False, True])}), quick=350, thorough=20000, shards=4)
def ranks(case, ctx):
    r = gen.rs(case['seed'])
    n, d = case['n'], max(case['d'], 2) if case['kernel'] == 'linear' else case['d']
    X = np.empty((0, d))
    while len(X) < n:
        x = 3 * r.randn(1, d)
        if len(X) == 0 or np.linalg.norm(X - x, axis=1).min() > 0.8:
            X = np.vstack([X, x])
    if case['kernel'] == 'rbf':
        y = r.randint(0, 2, size=n)
        y[:2] = [0, 1]
    else:
        w = r.randn(d)
        y = (X @ w > 0).astype(int)
        X += np.where(y > 0, 0.3, -0.3).reshape(-1, 1) * w / np.linalg.norm(w)
        if len(set(y[:case['labeled']])) < 2:
            return
    X = X.round(3)
    np.random.seed(case['rng'] % 2 ** 32)
    learner = EntropyReductionLearner(data_sample_size=case['size'], n_samples=case['n_samples'], warmup=12, thin=3, kernel=case['kernel'], gamma=0.7)
    if case['other']:  # trained on another dataset before, and not cleared (a cached rounding ellipsoid would rely on version spaces which shrink)
        learner = EntropyReductionLearner(data_sample_size=case['size'], n_samples=case['n_samples'], warmup=12, thin=3, kernel=case['kernel'], gamma=0.7, rounding_cache=False)
        data = PartitionedDataset(X[::-1] + (0. if case['kernel'] == 'linear' else 20.), copy=True)
        data.move_to_labeled(LabeledSet(y[::-1][:2], index=[0, 1]))
        learner.fit_data(data)
    data = PartitionedDataset(X.copy())
    data.move_to_labeled(LabeledSet(y[:2], index=[0, 1]))
    if case['again']:
        learner.fit_data(data)
    if case['labeled'] > 2:
        data.move_to_labeled(LabeledSet(y[2:case['labeled']], index=range(2, case['labeled'])))
    direct = case['direct'] == 0
    if direct:
        rows = [int(i) for i in data.labeled.index]
        learner.clear()
        learner.fit(X[rows], y[rows].astype(float))
    else:
        learner.fit_data(data)
    Q = X if case['pool'] else X[r.randint(0, n, size=case['m'])] + r.choice([0.5, 1.]) * r.randn(case['m'], d)
    if case['dup']:
        Q = np.vstack([Q, Q[:2]])
    H = np.asarray(learner.predict_all(Q), dtype=float)
    ctx.eq(H.shape, (case['n_samples'], len(Q)), 'shape of the votes')
    ctx.require(np.isin(H, [0., 1.]).all(), 'votes {}', H)
    p = H.mean(axis=0)
    ctx.close(learner.predict_proba(Q), p, 'probabilities: votes of the hypotheses', atol=1e-12)
    copy = Q.copy()
    metric_logger.flush()
    got = np.asarray(learner.rank(Q), dtype=float)
    metrics = dict(metric_logger.get_metrics())
    ctx.arr_eq(Q, copy, 'data afterwards')
    ctx.eq(got.shape, (len(Q),), 'shape of the ranks')
    cut = np.abs(p - 0.5)
    ctx.close(metrics['min_cut_proba'], cut.min(), 'metric min_cut_proba', atol=1e-12)
    if cut.min() == 0.5:
        ctx.arr_eq(got, np.zeros(len(Q)), 'ranks: no point cuts the version space')
        ctx.label('no cut')
        return
    best = cut < cut.min() + 1e-9
    exact = cut == cut.min()
    ctx.require((got[~best] == np.inf).all(), 'ranks {}, distances of the probabilities to 0.5: {}', got, cut)
    ctx.require((got[exact] < np.inf).all(), 'ranks {}, distances of the probabilities to 0.5: {}', got, cut)
    finite = got < np.inf  # points which are worse by rounding only may be either
    k = n if case['size'] is None else min(n, case['size'])
    votes = np.asarray(learner.predict_all(X), dtype=float)
    if direct:
        options = [H[:, finite]]
    else:
        if comb(n, k) > 130:
            return
        options = [votes[:, list(s)] for s in itertools.combinations(range(n), k)]
    expected = [entropies(H[:, finite], S) for S in options]
    ctx.require(any(np.allclose(e, got[finite], rtol=1e-9, atol=1e-9) for e in expected), 'ranks {} of the points cutting best; expected entropies {} (for samples of {} points)', got[finite], expected[0], k)
    ctx.arr_eq(learner.rank(Q), got, 'ranks computed a second time')
    ctx.nontrivial(got[finite].max() > 0.05)
    ctx.label('fit' if direct else 'all' if k == n else 'sample', 'ties' if best.sum() > 1 else 'unique')


@check.sub(st.fixed_dictionaries({'n': st.integers(1, 6), 'd': st.integers(1, 5), 'seed': gen.seeds(), 'kernel': st.sampled_from([None, None, 'linear', 'rbf', 'poly']), 'margin': st.sampled_from([0.3, 0.5, 0.8, 1., 1.5]), 'H': st.sampled_from([0, 0., 0.25, 1., 4., 7.3]),
                                  'delta': st.sampled_from([0.01, 0.05, 0.5, 1.]), 'rng': st.integers(0, 10 ** 6), 'state': st.booleans(), 'order': st.sampled_from(['C', 'F'])}), quick=150, thorough=8000, shards=3)
def preprocessing(case, ctx):
    """ Random projection on sign vectors, plus sign noise: margins become those of a separable problem. """
    r = gen.rs(case['seed'])
    n, H, margin = case['n'], case['H'], case['margin']
    X = np.asarray(r.randn(n, case['d']) * r.choice([0.3, 1., 2.], size=(n, 1)), order=case['order'])
    if case['kernel'] == 'linear' and n > case['d']:
        X = np.ascontiguousarray(np.hstack([X, np.eye(n)]))
    kernel = None if case['kernel'] is None else Kernel.get(case['kernel'], **({} if case['kernel'] == 'linear' else {'gamma': 0.8} if case['kernel'] == 'rbf' else {'gamma': 0.8, 'degree': 3, 'coef0': 1.}))
    before = X.copy()

    def call(seed):
        return np.asarray(aluma_preprocessing(X, kernel, margin, H, case['delta'], seed=np.random.RandomState(seed) if case['state'] else seed))
    if kernel is None:
        B = X
    else:
        gram = np.array([[float(kernel(X[i:i + 1], X[j:j + 1])) for j in range(n)] for i in range(n)])
        if np.linalg.eigvalsh(gram)[0] < 1e-6:
            return
        B = np.linalg.cholesky(gram)
    got = call(case['rng'])
    ctx.arr_eq(X, before, 'data afterwards')
    eps = margin / 2 / (1 + H ** 0.5)
    k = ceil(4 * log(4 * n / case['delta']) / (eps ** 2 * (1 - eps)))
    ctx.eq(got.shape, (n, k), 'shape of the result')
    ctx.arr_eq(call(case['rng']), got, 'result with the same seed')
    ctx.require(not np.array_equal(call(case['rng'] + 1), got), 'the same result with another seed')
    ctx.require(not np.array_equal(aluma_preprocessing(X, kernel, margin, H, case['delta']), aluma_preprocessing(X, kernel, margin, H, case['delta'])), 'the same result twice without seed')
    a2 = 1 / (1 + H ** 0.5)
    # every column is a * B s + noise of size sqrt(1 - a^2), with signs s
    signs = np.array(list(itertools.product([-1., 1.], repeat=B.shape[1])))
    base = a2 ** 0.5 * B @ signs.T  # points x combinations
    off = np.abs(np.abs(got[:, :, None] - base[:, None, :]) - (1 - a2) ** 0.5).max(axis=0)  # columns x combinations
    ctx.require((off.min(axis=1) < 1e-5).all(), 'column {} is no combination of the data with signs', int(np.argmax(off.min(axis=1))))
    v = a2 * (B ** 2).sum(axis=1) + 1 - a2
    ctx.require((np.abs(got.mean(axis=1)) <= 9 * np.sqrt(v / k)).all(), 'means {} of the rows', got.mean(axis=1))
    gram = a2 * B @ B.T + (1 - a2) * np.eye(n)
    ctx.require((np.abs(got @ got.T / k - gram) <= 12 * np.sqrt(3 * np.outer(v, v) / k)).all(), 'scalar products {} of the result, expected about {}', got @ got.T / k, gram)
    ctx.nontrivial(n > 1)
    ctx.label(str(case['kernel']), 'H=0' if H == 0 else 'H>0')


@check.sub(st.fixed_dictionaries({'d': st.integers(1, 3), 'n': st.integers(3, 9), 'seed': gen.seeds(), 'rng': gen.seeds(), 'kernel': st.sampled_from(['rbf', 'linear', 'poly', 'poly']), 'gamma': st.sampled_from([None, 0.4, 1.5]), 'degree': st.sampled_from([1, 3, 5]),
                                  'coef0': st.sampled_from([0., 1.5]), 'add_intercept': st.booleans(), 'rounding': st.booleans(), 'single_chain': st.booleans(), 'n_samples': st.sampled_from([1, 5, 9]), 'warmup': st.sampled_from([1, 30]),
                                  'thin': st.sampled_from([1, 8]), 'jitter': st.sampled_from([1e-12, 0.3]), 'decompose': st.sampled_from([True, True, False]), 'cache_samples': st.booleans(), 'rounding_cache': st.booleans(),
                                  'max_iter': st.sampled_from([None, 1, 3]), 'size': st.sampled_from([None, 3])}), quick=200, thorough=8000, shards=3)
def options(case, ctx):
    """ The hypotheses are those of a kernel version space with the same options. """
    r = gen.rs(case['seed'])
    X = 2 * r.randn(case['n'], case['d'])
    w = r.randn(case['d'])
    y = (X @ w > 0).astype(float)
    if len(set(y)) < 2 or np.abs(X @ w).min() < 0.1:
        return
    first = max(int(np.argmax(y)), int(np.argmin(y))) + 1
    names = ('kernel', 'gamma', 'degree', 'coef0', 'add_intercept', 'rounding', 'single_chain', 'n_samples', 'warmup', 'thin', 'jitter', 'decompose', 'cache_samples', 'rounding_cache')
    kwargs = {k: case[k] for k in names}
    if case['max_iter'] is not None:
        kwargs['rounding_options'] = {'max_iter': case['max_iter']}
    Q = np.vstack([X, 2 * r.randn(20, case['d'])])
    got, votes = [], None
    for make in (lambda: KernelVersionSpace(**kwargs), lambda: EntropyReductionLearner(data_sample_size=case['size'], **kwargs)):
        learner = make()
        np.random.seed(case['rng'] % 2 ** 32)
        probas = []
        try:
            for m in sorted({first, case['n']}):  # samples and ellipsoids of the first training may serve the second one
                learner.fit(X[:m].copy(), y[:m].copy())
                probas.append(np.asarray(learner.predict_proba(Q), dtype=float))
        except Exception:
            if got:
                raise
            return  # rounding needs more iterations than it has
        got.append(probas)
    for a, b in zip(*got):
        ctx.close(b, a, 'probabilities of the entropy reduction learner versus those of a kernel version space', rtol=0, atol=1e-9)
    votes = np.asarray(learner.predict_all(Q), dtype=float)
    ctx.eq(votes.shape, (case['n_samples'], len(Q)), 'shape of the votes')
    ctx.close(votes.mean(axis=0), got[0][-1], 'mean of the votes', atol=1e-9)
    ctx.nontrivial(len(set(got[0][-1].tolist())) > 2)
    ctx.label(case['kernel'])


@check.sub(st.fixed_dictionaries({'margin': st.sampled_from([0.5, 0., -1.]), 'H': st.sampled_from([1., 0., -0.5]), 'delta': st.sampled_from([0.1, -0.1, 1.1]), 'size': st.sampled_from([5, 0, -3, 2.5, None])}), quick=100)
def arguments(case, ctx):
    X = gen.rs(0).randn(4, 2)
    if case['margin'] > 0 and case['H'] >= 0 and 0 < case['delta'] < 1:
        aluma_preprocessing(X, None, case['margin'], case['H'], case['delta'], seed=0)
    else:
        ctx.raises(ValueError, lambda: aluma_preprocessing(X, None, case['margin'], case['H'], case['delta'], seed=0), 'margin {margin}, H {H}, delta {delta}'.format(**case))
        ctx.nontrivial()
    if case['size'] is None or case['size'] == 5:
        EntropyReductionLearner(data_sample_size=case['size'])
    else:
        ctx.raises(ValueError, lambda: EntropyReductionLearner(data_sample_size=case['size']), 'data_sample_size {}'.format(case['size']))
