import numpy as np
from hypothesis import strategies as st
from sklearn.metrics.pairwise import linear_kernel, polynomial_kernel, rbf_kernel

import core
import gen
import aideme
from aideme import KernelVersionSpace, LinearVersionSpace
from aideme.active_learning.version_space.hit_and_run import HitAndRunSampler
from aideme.active_learning.version_space.linear import DeterministicLogisticRegression
from aideme.active_learning.version_space.kernel import KernelBayesianLogisticRegression
from aideme.explore import LabeledSet, PartitionedDataset

check = core.Check('C20', rule='random separable labels given in growing batches to linear and kernel version space learners in all configurations; random kernels, whose decomposition is compared with kernel '
                   'matrices; non-trivial: at least two trainings of one learner, with both labels, and predictions which are not all alike',
                   assumptions=['labels are separable in the feature space of the kernel with a margin (rounding without limit does not end otherwise)',
                                'one vote for one labeled point may be off, after at most two trainings of a case, with a decomposed kernel (jitter)'])


@st.composite
def cases(draw):
    return {'kind': draw(st.sampled_from(['linear', 'linear', 'kernel', 'kernel', 'entropy'])), 'n': draw(st.integers(2, 9)), 'd': draw(st.integers(1, 4)), 'seed': draw(gen.seeds()), 'rng': draw(gen.seeds()),
            'kernel': draw(st.sampled_from(['rbf', 'rbf', 'linear', 'poly', 'gaussian'])), 'gamma': draw(st.sampled_from([0.5, 1., 3.])), 'degree': draw(st.integers(2, 4)), 'coef0': draw(st.sampled_from([1., 0.5])),
            'decompose': draw(st.booleans()), 'rounding': draw(st.booleans()), 'rounding_cache': draw(st.booleans()), 'cache_samples': draw(st.booleans()), 'single_chain': draw(st.booleans()), 'n_samples': draw(st.one_of(*[st.integers(1, 8)] * 9, st.sampled_from([70, 130]))),
            'intercept': draw(st.booleans()), 'batches': draw(st.lists(st.integers(1, 4), min_size=1, max_size=4)), 'options': draw(st.sampled_from([None, {'max_iter': 10}, {'strategy': 'default', 'max_iter': 20}])),
            'jitter': 1e-12, 'data': draw(st.booleans())}


def make(case, d):
    kwargs = {k: case[k] for k in ('rounding', 'rounding_cache', 'cache_samples', 'single_chain', 'n_samples')}
    kwargs.update(add_intercept=case['intercept'], rounding_options=case['options'], warmup=12, thin=3)
    if case['kind'] == 'linear':
        if d == 1:
            kwargs['add_intercept'] = True
        return LinearVersionSpace(**kwargs)
    kwargs.update(kernel=case['kernel'], gamma=case['gamma'], degree=case['degree'], coef0=case['coef0'], decompose=case['decompose'], jitter=case['jitter'])
    return KernelVersionSpace(**kwargs) if case['kind'] == 'kernel' else aideme.EntropyReductionLearner(data_sample_size=4, **kwargs)


def separable(case, r):
    """ Points with labels that can be separated with a margin, under the kernel and the intercept of the case. """
    n, d = case['n'], case['d']
    X = []
    linear = case['kind'] == 'linear' or case['kernel'] in ('linear', 'poly')
    if case['kind'] != 'linear' and case['kernel'] == 'linear':
        d = case['d'] = max(d, 2)
    w, b = r.randn(d), r.randn() * 0.5 if case['intercept'] and case['kind'] == 'linear' or case['kernel'] == 'poly' and case['kind'] != 'linear' else 0.
    if not linear:
        while len(X) < n:  # distinct enough for the matrix of the kernel to be well conditioned; any labels are separable
            x = 4 * r.randn(d)
            if all(np.linalg.norm(x - z) > 1.2 / np.sqrt(case['gamma']) for z in X):
                X.append(x)
        X = np.array(X)
        y = r.randint(0, 2, size=n)
        y[:2] = [0, 1]
        return X, y.astype(float)
    w /= np.linalg.norm(w)
    for i in range(n):
        x = r.randn(d)
        m = x.dot(w) + b
        side = i % 2 if i < 2 else m > 0
        x += ((1 if side else -1) * max(abs(m), 0.3) - m) * w  # at least 0.3 away from the hyperplane, on the wanted side
        X.append(x)
    X = np.array(X)
    return X, (X.dot(w) + b > 0).astype(float)


@check.sub(cases(), quick=200, thorough=20000, shards=4)
def consistent_with_the_labels(case, ctx):
    """ Every sampled hypothesis classifies all labeled points correctly, so that their predicted probability is 0 or 1. """
    r = gen.rs(case['seed'])
    X, y = separable(case, r)
    n, d = X.shape
    if case['kind'] != 'linear' and not case['rounding'] and case['kernel'] == 'poly':
        return  # ill-conditioned
    learner = make(case, d)
    Q = np.vstack([X, r.randn(25, d) * 3])
    data = PartitionedDataset(np.vstack([X, r.randn(12, d)]), copy=True)
    np.random.seed(case['rng'] % 2 ** 32)
    i, fits, varied, near = 0, 0, False, 0
    for step, size in enumerate([2] + case['batches']):
        batch = list(range(i, min(n, i + size)))
        i += size
        if not batch:
            break
        if case['data'] or case['kind'] == 'entropy':
            data.move_to_labeled(LabeledSet(y[batch], index=batch))
            learner.fit_data(data)
        else:
            learner.fit(X[:batch[-1] + 1], y[:batch[-1] + 1])
        fits += 1
        m = batch[-1] + 1
        p = np.asarray(learner.predict_proba(Q))
        ctx.eq(p.shape, (len(Q),), 'shape of the probabilities')
        ctx.require(((0 <= p) & (p <= 1)).all(), 'probabilities {}', p)
        votes = p * case['n_samples']
        ctx.close(votes, np.round(votes), 'votes of the sampled hypotheses', atol=1e-9)
        ctx.arr_eq(np.asarray(learner.predict(Q), dtype=float), (p > 0.5).astype(float), 'predicted labels versus probabilities')
        wrong = [j for j in range(m) if p[j] != y[j]]
        if case['kind'] != 'linear' and wrong and abs(p[:m] - y[:m]).sum() * case['n_samples'] < 1.5 and near < 2:
            # a decomposed kernel tells labeled points from identical new ones by the jitter: a hypothesis within 1e-6 of a labeled point may be off
            near, wrong = near + 1, []
        ctx.require(not wrong, 'labeled points {} have probabilities {}, labels {}, after {} trainings', wrong, p[wrong].tolist(), y[wrong].tolist(), fits)
        rank = np.asarray(learner.rank(Q))
        if case['kind'] != 'entropy':
            ctx.close(rank, np.abs(p - 0.5), 'rank: distance of the probability to 0.5')
        ctx.arr_eq(learner.predict_proba(Q), p, 'probabilities computed a second time')
        one = np.concatenate([np.asarray(learner.predict_proba(Q[j:j + 1])) for j in range(len(Q))])
        ctx.require((np.abs(one - p) < 1e-9).mean() > 0.9, 'probabilities depend on which points are predicted together')
        varied = varied or len(set(p.tolist())) > 2
    if case['kind'] != 'entropy' and not (case['rounding'] and case['rounding_cache']):
        # other data (as many points), without clear(): only a cached rounding ellipsoid relies on version spaces which shrink
        X, y = separable(dict(case, n=m), gen.rs(case['seed'] + 1))
        if X.shape[1] == d and len(set(y)) == 2:
            learner.fit(X, y)
            p = np.asarray(learner.predict_proba(X))
            wrong = abs(p - y).sum() * case['n_samples']
            ctx.require(wrong < (0.5 if case['kind'] == 'linear' else 1.5), 'trained with other data: labels {}, probabilities {}', y.tolist(), p.tolist())
    elif case['kind'] == 'kernel' and m > 2:
        # fewer points: nothing of the cached ellipsoid fits
        X, y = separable(dict(case, n=m - 1 - case['seed'] % (m - 2)), gen.rs(case['seed'] + 1))
        if X.shape[1] == d and len(set(y)) == 2:
            learner.fit(X, y)
            p = np.asarray(learner.predict_proba(X))
            ctx.require(abs(p - y).sum() * case['n_samples'] < 1.5, 'trained with fewer points: labels {}, probabilities {}', y.tolist(), p.tolist())
            ctx.label('fewer points')
    ctx.nontrivial(fits >= 2 and varied)
    ctx.label(case['kind'])
    learner.clear()


class Recorder:
    """ Stands for the linear learner below the kernel. """
    def __init__(self):
        self.fitted, self.asked = None, []

    def clear(self):
        self.fitted = None

    def fit(self, X, y):
        self.fitted = (np.array(X), np.array(y))

    def answer(self, X):
        self.asked.append(np.array(X))
        return np.asarray(X).sum(axis=1)

    predict = predict_proba = answer

    def __getattr__(self, name):  # the method behind predict_all is no public one, whatever its name
        if name.startswith('__'):
            raise AttributeError(name)
        return self.answer


KERNELS = {'rbf': lambda c: lambda A, B: rbf_kernel(A, B, gamma=c['gamma']), 'linear': lambda c: linear_kernel,
           'poly': lambda c: lambda A, B: polynomial_kernel(A, B, degree=c['degree'], gamma=c['gamma'], coef0=c['coef0'])}


@check.sub(st.fixed_dictionaries({'n': st.integers(1, 8), 'd': st.integers(1, 4), 'm': st.integers(1, 10), 'seed': gen.seeds(), 'kernel': st.sampled_from(['rbf', 'rbf', 'poly', 'linear', 'RBF', 'gaussian', 'Poly']),
                                  'gamma': st.sampled_from([None, 0.3, 2.]), 'degree': st.integers(1, 4), 'coef0': st.sampled_from([0., 1., 2.5]), 'decompose': st.booleans(), 'jitter': st.sampled_from([1e-12, 1e-6, 0.1]),
                                  'method': st.sampled_from(['predict', 'predict_proba', 'predict_all']), 'again': st.booleans()}), quick=600, thorough=40000, shards=2)
def kernel_features(case, ctx):
    """ Scalar products of the features given to the linear learner are the values of the kernel. """
    r = gen.rs(case['seed'])
    n, d = case['n'], case['d']
    rec = Recorder()
    clf = KernelBayesianLogisticRegression(rec, decompose=case['decompose'], jitter=case['jitter'], kernel=case['kernel'], gamma=case['gamma'], degree=case['degree'], coef0=case['coef0'])
    c = dict(case, gamma=case['gamma'] or 1 / d)
    k = KERNELS[{'gaussian': 'rbf'}.get(case['kernel'].lower(), case['kernel'].lower())](c)
    for attempt in range(2 if case['again'] else 1):
        X = 1.5 * r.randn(n + attempt * (case['m'] % 2), d)
        Q = 1.5 * r.randn(case['m'], d)
        y = r.randint(0, 2, size=len(X)).astype(float)
        K = k(X, X)
        if case['decompose'] and np.linalg.eigvalsh(K).min() < 1e-8 and case['jitter'] < 1e-3:
            return
        X0, Q0 = X.copy(), Q.copy()
        clf.fit(X, y)
        F, fy = rec.fitted
        ctx.arr_eq(fy, y, 'labels of the linear learner')
        ans = getattr(clf, case['method'])(Q)
        G = rec.asked[-1]
        ctx.arr_eq(ans, G.sum(axis=1), 'answer of the linear learner')
        ctx.arr_eq(X, X0, 'training data')
        ctx.arr_eq(Q, Q0, 'predicted data')
        if not case['decompose']:
            ctx.close(F, K, 'kernel matrix of the training data')
            ctx.close(G, k(Q, X), 'kernel matrix of the predicted data')
        else:
            J = K + case['jitter'] * np.eye(len(X))
            scale = np.abs(J).max()
            ctx.eq(F.shape, (len(X), len(X) + 1), 'shape of the features')
            ctx.close(F @ F.T, J, 'scalar products of training features', rtol=1e-7, atol=1e-9 * scale)
            ctx.arr_eq(np.triu(F[:, :-1], 1), np.zeros((len(X), len(X))), 'upper triangle of the decomposition')
            ctx.arr_eq(F[:, -1], np.zeros(len(X)), 'last feature of the training data')
            cond = np.linalg.cond(J)
            tol = max(1e-9 * scale, 1e-13 * cond * scale)
            ctx.close(G @ F.T, k(Q, X), 'scalar products of predicted and training features', rtol=1e-6, atol=tol)
            diag = np.diag(k(Q, Q)) + case['jitter']
            ctx.close((G ** 2).sum(axis=1), np.maximum(diag, (G[:, :-1] ** 2).sum(axis=1)), 'norms of the predicted features', rtol=1e-6, atol=tol * 10)
            ctx.require((G[:, -1] >= 0).all(), 'negative last feature')
            # training points keep their features
            clf.predict_proba(X)
            ctx.close(rec.asked[-1] @ F.T, K, 'features of training points', rtol=1e-6, atol=tol + 1.01 * case['jitter'])
        ctx.nontrivial(n > 1)
    clf.clear()
    ctx.require(rec.fitted is None, 'clear() did not reach the linear learner')
    ctx.label(case['kernel'].lower(), 'decomposed' if case['decompose'] else 'plain')


@check.sub(st.fixed_dictionaries({'n': st.integers(2, 8), 'd': st.integers(1, 4), 'seed': gen.seeds(), 'rng': gen.seeds(), 'n_samples': st.integers(1, 6), 'rounding': st.booleans(), 'scale': st.sampled_from([1., 8., 0.25])}), quick=120, thorough=8000)
def linear_hypotheses(case, ctx):
    """ A linear version space learner is a committee of half-spaces: along a line, every vote changes at most once. """
    r = gen.rs(case['seed'])
    w = r.randn(case['d'])
    X = []
    while len(X) < case['n']:
        x = r.randn(case['d'])
        if abs(x.dot(w) + 0.2) > 0.2 * np.linalg.norm(w):
            X.append(x)
    X = np.array(X)
    y = (X.dot(w) + 0.2 > 0).astype(float)
    np.random.seed(case['rng'] % 2 ** 32)
    learner = LinearVersionSpace(n_samples=case['n_samples'], rounding=case['rounding'], warmup=20, thin=5)
    learner.fit(X * case['scale'], y)
    a, b = r.randn(case['d']), r.randn(case['d'])
    line = (a + np.linspace(-30, 30, 400).reshape(-1, 1) * b) * case['scale']
    votes = np.round(np.asarray(learner.predict_proba(line)) * case['n_samples'])
    changes = int(np.abs(np.diff(votes)).sum())
    ctx.require(changes <= case['n_samples'], 'the {} votes changed {} times along a line', case['n_samples'], changes)
    far = np.asarray(learner.predict_proba(np.array([a + 1e6 * b, a - 1e6 * b]) * case['scale']))
    ctx.close(far.sum(), 1., 'votes at both ends of a line', atol=1e-9)
    ctx.nontrivial(changes > 0)


@check.sub(st.fixed_dictionaries({'kind': st.sampled_from(['linear', 'kernel', 'kernel', 'subspatial', 'entropy']), 'seed': gen.seeds(), 'rng': gen.seeds(), 'n': st.integers(3, 7), 'd': st.integers(1, 3), 'single_chain': st.booleans(), 'n_samples': st.integers(2, 12),
                                  'warmup': st.integers(1, 9), 'thin': st.integers(1, 5), 'cache_samples': st.booleans(), 'rounding': st.booleans(), 'rounding_cache': st.booleans(), 'intercept': st.booleans(), 'decompose': st.booleans(),
                                  'options': st.sampled_from([None, {'max_iter': 1}, {'strategy': 'default', 'max_iter': 3}, {'z_cut': False, 'max_iter': 2}, {'sphere_cuts': True, 'max_iter': 2}]),
                                  'kernel': st.sampled_from([dict(kernel='rbf', gamma=0.5), dict(kernel='rbf'), dict(kernel='poly', gamma=0.4, degree=2, coef0=1.), dict(kernel='poly', gamma=0.4, degree=3, coef0=0.5)])}), quick=150, thorough=8000, shards=2)
def configuration_is_passed_on(case, ctx):
    """ With the same random state, a learner votes exactly as the sampler of its configuration, trained by hand. """
    r = gen.rs(case['seed'])
    n, d = case['n'], case['d']
    X = 2 * np.array([[i + 1, (i * i) % 5, (3 * i) % 7][:d] for i in range(n)]) + 0.3 * r.randn(n, d)
    w = r.randn(d)
    y = (X @ w > np.sort(X @ w)[n // 2]).astype(float)
    y[np.argsort(X @ w)[0]], y[np.argsort(X @ w)[-1]] = 0., 1.
    Q = np.vstack([X, 5 * r.randn(30, d) + X.mean(axis=0)])
    sampling = {p: case[p] for p in ('single_chain', 'warmup', 'thin', 'cache_samples', 'rounding', 'rounding_cache')}
    sampling['rounding_options'] = case['options']
    if case['options'] is None:  # without limit, rounding does not end if the labels are not separable
        sampling['rounding_options'] = {'max_iter': 5}
    options = dict(sampling, n_samples=case['n_samples'], add_intercept=case['intercept'])
    kernel = dict(case['kernel'], decompose=case['decompose'], jitter=1e-6)

    def by_hand(dim):
        if case['kind'] == 'linear':
            return None
        cache = case['rounding_cache'] and case['rounding']
        lin = DeterministicLogisticRegression(**dict(options, rounding_cache=cache))
        return KernelBayesianLogisticRegression(lin, **dict(kernel, decompose=case['decompose'] or cache))

    steps = [max(3, n - 1), n]
    first = [0, int(np.argmax(y))] if y[0] == 0 else [0, int(np.argmin(y))]
    order = first + [i for i in range(n) if i not in first]
    X, y = X[order], y[order]
    parts = [[0], list(range(d))]
    results = []
    for side in range(2):
        np.random.seed(case['rng'] % 2 ** 32)
        if side == 0:
            if case['kind'] == 'linear':
                learner = LinearVersionSpace(**options)
            elif case['kind'] == 'kernel':
                learner = KernelVersionSpace(**dict(options, **kernel))
            elif case['kind'] == 'entropy':
                learner = aideme.EntropyReductionLearner(**dict(options, **kernel))
            else:
                learner = aideme.SubspatialVersionSpace(partition=parts, label_function='PROD', **dict(options, **kernel))
        else:
            sampler, learner, many = HitAndRunSampler(**sampling), by_hand(d), [by_hand(1), by_hand(d)]
        got = []
        try:
            for m in steps:
                if case['kind'] == 'subspatial':
                    if side == 0:
                        learner.fit(X[:m], np.c_[y[:m], y[:m]])
                        got.append(np.asarray(learner.predict_proba_all(Q)))
                    else:
                        for l, p in zip(many, parts):
                            l.fit(X[:m][:, p], y[:m])
                        got.append(np.array([l.predict_proba(Q[:, p]) for l, p in zip(many, parts)]))
                elif case['kind'] == 'linear' and side == 1:
                    A, B = (np.c_[np.ones(m), X[:m]], np.c_[np.ones(len(Q)), Q]) if case['intercept'] else (X[:m], Q)
                    W = np.asarray(sampler.sample(A, y[:m], case['n_samples']))
                    got.append((B @ W.T > 0).mean(axis=1))
                else:
                    learner.fit(X[:m], y[:m])
                    got.append(np.asarray(learner.predict_proba(Q)))
        except Exception as e:  # not separable without intercept, or by an ill-conditioned kernel: the same on both sides
            got.append(type(e).__name__)
        results.append(got)
    ctx.eq(len(results[0]), len(results[1]), 'number of trainings until an error: {}'.format([g[-1] for g in results]))
    for a, b in zip(*results):
        if isinstance(a, str) or isinstance(b, str):
            ctx.eq(str(a), str(b), 'error')
        else:
            ctx.require(a.shape == b.shape and (np.abs(a - b) < 1e-9).mean() > 0.95, 'votes {} differ from those of the configuration, {}', a.tolist(), b.tolist())
            ctx.nontrivial(len(set(a.ravel().tolist())) > 2)
    ctx.label(case['kind'], 'error' if isinstance(results[0][-1], str) else 'trained')
